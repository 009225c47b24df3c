// C11, C15: wobble smoothing from an arbitrary window.
#include "types.h"
#include "lib.inc"
using namespace ink::stroke_model;
using namespace vc;

namespace ink::stroke_model {
using namespace vc;
using S = WobbleSmoother::Sample;
struct Sums { Vec2 w; float d, t; };
inline bool Same(const Sums& a, const Sums& b) { return And(Same(a.w, b.w), Same(a.d, b.d), Same(a.t, b.t)); }
inline bool Same(const S& a, const S& b) {
  return And(Same(a.position, b.position), Same(a.weighted_position, b.weighted_position), Same(a.distance, b.distance), Same(a.duration, b.duration), Same(a.time, b.time));
}
inline void Any(S& s) { Any(s.position); Any(s.weighted_position); Any(s.distance); Any(s.duration); Any(s.time); }

// weighted sums less the sample that leaves the window
inline Sums Drop(const Sums& g, const S& s) {
  return {{g.w.x - s.weighted_position.x, g.w.y - s.weighted_position.y}, g.d - s.distance, static_cast<float>(g.t - s.duration.Value())};
}
struct WobbleCtx {
  WobbleSmoother* m;
  std::deque<S>* all;   // the window and the new sample, before anything is dropped
  Ghost<Sums>* g;
  std::uint64_t j;
  Time limit;
};
inline void WobbleLoop(WobbleCtx& c, std::uint64_t k) {
#ifdef VC_SYM
  auto& st = c.m->state_;
  if (k < c.all->size()) c.g->Def(k + 1, Drop(c.g->at(k), (*c.all)[k]));
  Inv("dropped", st.samples.size() + k == c.all->size());
  Sums g = c.g->at(k);
  Inv("position sum", Same(st.weighted_position_sum, g.w));
  Inv("distance sum", Same(st.distance_sum, g.d));
  Inv("duration sum", Same(st.duration_sum, g.t));
  if (c.j < k) Inv("only what is too old", (*c.all)[c.j].time < c.limit);
#endif
}
}  // namespace ink::stroke_model

extern "C" void h_wobble() {
  WobbleSmoother m;
  WobbleSmootherParams p = Arb<WobbleSmootherParams>();
  Assume(ValidateWobbleSmootherParams(p).ok());
  Vec2 down = Arb<Vec2>();
  Time tdown = Arb<Time>();
  m.Reset(p, down, tdown);
  VC_ASSERT("C15", "smoothing window: a stroke starts with its first position only", m.state_.samples.size() == 1);
  VC_ASSERT("C11", "a stroke starts with its first position and no duration",
            And(Same(m.state_.samples[0], S{down, {0, 0}, 0, Duration(0), tdown}), m.state_.weighted_position_sum == (Vec2{0, 0}), m.state_.distance_sum == 0, m.state_.duration_sum == 0));
  AnySeq(m.state_.samples);
  Any(m.state_.weighted_position_sum);
  Any(m.state_.distance_sum);
  Any(m.state_.duration_sum);
  Assume(m.state_.samples.size() >= 1);
  Vec2 pos = Arb<Vec2>();
  Time t = Arb<Time>();
  Assume(Fin(t.Value()));
  std::uint64_t snap = 0;
#ifdef VC_SYM
  snap = __vc_snapshot(&m);
#endif
  std::deque<S> all = m.state_.samples;
  S last = all.back();
  float dx = last.position.x - pos.x, dy = last.position.y - pos.y;
  double dt = t.Value() - last.time.Value();
  float fdt = static_cast<float>(dt);
  S s{pos, {fdt * pos.x, fdt * pos.y}, std::hypot(dx, dy), Duration(dt), t};
  all.push_back(s);
  Sums g0{{m.state_.weighted_position_sum.x + s.weighted_position.x, m.state_.weighted_position_sum.y + s.weighted_position.y},
          m.state_.distance_sum + s.distance, static_cast<float>(m.state_.duration_sum + dt)};
  Ghost<Sums> g("wobble", g0);
  Time limit = Time(t.Value() - p.timeout.Value());
  WobbleCtx c{&m, &all, &g, Arb<std::uint64_t>(), limit};
  LoopSpec(c, WobbleLoop);
  Vec2 r = m.Update(pos, t);
  if (!p.is_enabled) {
    VC_ASSERT("C11", "disabled: the position is unchanged", Same(r, pos));
#ifdef VC_SYM
    __vc_assert_unchanged(snap, "C11", "disabled: nothing is recorded");
#endif
    VC_COVER("disabled");
    return;
  }
#ifdef VC_SYM
  std::uint64_t K = all.size() - m.state_.samples.size();
  VC_ASSERT("C15", "smoothing window: at least the new sample stays", And(K < all.size(), m.state_.samples.size() + K == all.size()));
  std::uint64_t i = c.j;
  if (i < K) VC_ASSERT("C15", "smoothing window: only samples older than the timeout leave", all[i].time < limit);
  VC_ASSERT("C15", "smoothing window: the oldest sample is not too old", !(m.state_.samples[0].time < limit));
  if (i < m.state_.samples.size()) VC_ASSERT("C15", "smoothing window: the most recent samples stay", Same(m.state_.samples[i], all[i + K]));
  Sums e = g.at(K);
  VC_ASSERT("C11", "sums follow the window", And(Same(m.state_.weighted_position_sum, e.w), Same(m.state_.distance_sum, e.d), Same(m.state_.duration_sum, e.t)));
  if (e.t == 0) {
    VC_ASSERT("C11", "a window without duration: the position is unchanged", Same(r, pos));
    VC_COVER("no duration");
    return;
  }
  Vec2 avg{e.w.x / e.t, e.w.y / e.t};
  float speed = e.d / e.t;
  float f;
  if (p.speed_floor == p.speed_ceiling) f = speed > p.speed_floor ? 1.f : 0.f;
  else f = std::clamp((speed - p.speed_floor) / (p.speed_ceiling - p.speed_floor), 0.f, 1.f);
  float f1 = std::clamp(f, 0.f, 1.f);
  VC_ASSERT("C11", "blend of the average and the raw position by speed", Same(r, Vec2{avg.x + f1 * (pos.x - avg.x), avg.y + f1 * (pos.y - avg.y)}));
  if (And(speed <= p.speed_floor, p.speed_floor < p.speed_ceiling, Fin(pos.x - avg.x))) VC_ASSERT("C11", "the average at or below the floor", r.x == avg.x);
  VC_COVER("blend");
#endif
}
