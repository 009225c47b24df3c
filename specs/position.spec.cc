// C07, C08, C09, C10: the spring-mass position model and its resampling.
#include "types.h"
#include "lib.inc"
using namespace ink::stroke_model;
using namespace vc;

namespace {
// One step of the model: a mass on a spring, with drag, moved towards the
// anchor over the time since the previous state.
TipState RefStep(const TipState& s, Vec2 anchor, Time t, float k, float drag) {
  TipState r;
  r.acceleration.x = (anchor.x - s.position.x) / k - drag * s.velocity.x;
  r.acceleration.y = (anchor.y - s.position.y) / k - drag * s.velocity.y;
  float dt = static_cast<float>(t.Value() - s.time.Value());
  r.velocity.x = s.velocity.x + dt * r.acceleration.x;
  r.velocity.y = s.velocity.y + dt * r.acceleration.y;
  r.position.x = s.position.x + dt * r.velocity.x;
  r.position.y = s.position.y + dt * r.velocity.y;
  r.time = t;
  return r;
}
// the i-th of n equally spaced points from a to b (i = 1 .. n)
float RefFrac(int i, int n) { return std::clamp(static_cast<float>(i) / static_cast<float>(n), 0.f, 1.f); }
Vec2 RefAnchor(Vec2 a, Vec2 b, float f) { return {a.x + f * (b.x - a.x), a.y + f * (b.y - a.y)}; }
Time RefTime(Time a, Time b, float f) { return Time(a.Value() + (b.Value() - a.Value()) * static_cast<double>(f)); }
}  // namespace

extern "C" void h_step() {
  PositionModeler m;
  m.Reset(Arb<TipState>(), Arb<PositionModelerParams>());
  TipState s0 = m.CurrentState();
  PositionModelerParams p = m.Params();
  Vec2 anchor = Arb<Vec2>();
  Time t = Arb<Time>();
  TipState r = m.Update(anchor, t);
  TipState want = RefStep(s0, anchor, t, p.spring_mass_constant, p.drag_constant);
  VC_ASSERT("C09", "step: acceleration", Same(r.acceleration, want.acceleration));
  VC_ASSERT("C09", "step: velocity", Same(r.velocity, want.velocity));
  VC_ASSERT("C09", "step: position", Same(r.position, want.position));
  VC_ASSERT("C09", "step: time", Same(r.time, want.time));
  VC_ASSERT("C09", "step: state kept", Same(m.CurrentState(), r));
  VC_COVER("step");
}

namespace {
struct PathCtx {
  PositionModeler* m;
  std::vector<TipState>* out;
  Ghost<TipState>* g;
  std::uint64_t n0, j;
  Vec2 a, b;
  Time ta, tb;
  int n;
  float k, drag;
  TipState Next(const TipState& s, std::uint64_t i) const {
    float f = RefFrac(static_cast<int>(i + 1), n);
    return RefStep(s, RefAnchor(a, b, f), RefTime(ta, tb, f), k, drag);
  }
};
void PathLoop(PathCtx& c, std::uint64_t k) {
#ifdef VC_SYM
  c.g->Def(k + 1, c.Next(c.g->at(k), k));
  Inv("state", Same(c.m->CurrentState(), c.g->at(k)));
  Inv("size", c.out->size() == c.n0 + k);
  if (c.j < k) Inv("element", Same((*c.out)[c.n0 + c.j], c.g->at(c.j + 1)));
#endif
}
}  // namespace

extern "C" void h_path() {
  PositionModeler m;
  m.Reset(Arb<TipState>(), Arb<PositionModelerParams>());
  std::vector<TipState> out;
  AnySeq(out);
  std::uint64_t n0 = out.size();
  std::uint64_t jo = Arb<std::uint64_t>();
  std::vector<TipState> old = out;
  Vec2 a = Arb<Vec2>(), b = Arb<Vec2>();
  Time ta = Arb<Time>(), tb = Arb<Time>();
  int n = Arb<int>();
  Assume(n < vc::kMaxSteps);
  TipState s0 = m.CurrentState();
  Ghost<TipState> g("path", s0);
  PathCtx c{&m, &out, &g, n0, Arb<std::uint64_t>(), a, b, ta, tb, n, m.Params().spring_mass_constant, m.Params().drag_constant};
  LoopSpec(c, PathLoop);
  m.UpdateAlongLinearPath(a, ta, b, tb, n, std::back_inserter(out));
  std::uint64_t cnt = n > 0 ? static_cast<std::uint64_t>(n) : 0;
  VC_ASSERT("C09", "resampling: one state per step", out.size() == n0 + cnt);
#ifdef VC_SYM
  VC_ASSERT("C09", "resampling: final state follows the recurrence", Same(m.CurrentState(), g.at(cnt)));
  if (c.j < cnt) VC_ASSERT("C09", "resampling: every state follows the recurrence", Same(out[n0 + c.j], g.at(c.j + 1)));
#else
  g.Extend(cnt, [&](const TipState& s, std::uint64_t i) { return c.Next(s, i); });
  for (std::uint64_t j = 0; j < cnt; ++j) VC_ASSERT("C09", "resampling: every state follows the recurrence", Same(out[n0 + j], g.at(j + 1)));
#endif
  if (jo < n0) VC_ASSERT("C05", "resampling: appends only", Same(out[jo], old[jo]));
  if (n > 3) VC_COVER("path");
}

// C08: times of the resampled states.
namespace {
struct TimeCtx {
  PositionModeler* m;
  std::vector<TipState>* out;
  std::uint64_t n0, j;
  Time ta, tb;
  int n;
};
void TimeLoop(TimeCtx& c, std::uint64_t k) {
#ifdef VC_SYM
  Inv("size", c.out->size() == c.n0 + k);
  if (c.j < k) Inv("time", Same((*c.out)[c.n0 + c.j].time, RefTime(c.ta, c.tb, RefFrac(static_cast<int>(c.j + 1), c.n))));
  if (c.j + 1 < k) Inv("time2", Same((*c.out)[c.n0 + c.j + 1].time, RefTime(c.ta, c.tb, RefFrac(static_cast<int>(c.j + 2), c.n))));
#endif
}
}  // namespace
extern "C" void h_path_times() {
  PositionModeler m;
  m.Reset(Arb<TipState>(), Arb<PositionModelerParams>());
  std::vector<TipState> out;
  AnySeq(out);
  std::uint64_t n0 = out.size();
  Vec2 a = Arb<Vec2>(), b = Arb<Vec2>();
  Time ta = Arb<Time>(), tb = Arb<Time>();
  int n = Arb<int>();
  Assume(n < vc::kMaxSteps);
  Assume(And(ta <= tb, Fin(ta.Value()), Fin(tb.Value())));
  Assume(Fin(tb.Value() - ta.Value()));
  TimeCtx c{&m, &out, n0, Arb<std::uint64_t>(), ta, tb, n};
  Assume(c.j < 0x80000000u);
  LoopSpec(c, TimeLoop);
  m.UpdateAlongLinearPath(a, ta, b, tb, n, std::back_inserter(out));
  std::uint64_t j = c.j;
#ifndef VC_SYM
  for (j = 0; n0 + j < out.size(); ++j)
#endif
  {
    if (n0 + j < out.size()) {
      VC_ASSERT("C08", "resampled times start at the previous input", out[n0 + j].time >= ta);
      if (n0 + j + 1 < out.size()) VC_ASSERT("C08", "resampled times never decrease", out[n0 + j].time <= out[n0 + j + 1].time);
    }
  }
  VC_COVER("path times");
}

// C10: catching up with the anchor when the stroke ends.
namespace {
struct End {       // state of the search after some iterations
  TipState s;      // last emitted state (or the state the stroke ended in)
  double dt;       // current step
  std::uint64_t n; // states emitted
};
struct EndStep { TipState cand; bool stuck, overshot, arrived; };
struct EndCtx {
  PositionModeler* m;
  std::vector<TipState>* out;
  Ghost<End>* g;
  std::uint64_t n0, j;
  Vec2 anchor;
  float stop, k, drag;
  float Dist(Vec2 a, Vec2 b) const { return std::hypot(b.x - a.x, b.y - a.y); }
  // position of the point of [a, b] nearest to p, from 0 at a to 1 at b
  float Nearest(Vec2 a, Vec2 b, Vec2 p) const {
    if (And(a.x == b.x, a.y == b.y)) return 0;
    float vx = b.x - a.x, vy = b.y - a.y;
    return std::clamp(((p.x - a.x) * vx + (p.y - a.y) * vy) / (vx * vx + vy * vy), 0.f, 1.f);
  }
  EndStep Try(const End& e) const {
    EndStep r;
    r.cand = RefStep(e.s, anchor, Time(e.s.time.Value() + e.dt), k, drag);
    r.stuck = Dist(e.s.position, r.cand.position) < stop;
    r.overshot = Nearest(e.s.position, r.cand.position, anchor) < 1;
    r.arrived = Dist(r.cand.position, anchor) < stop;
    return r;
  }
};
using vc::Same;
inline bool Same(const End& a, const End& b) { return And(Same(a.s, b.s), Same(a.dt, b.dt), Same(a.n, b.n)); }
void EndLoop(EndCtx& c, std::uint64_t k) {
#ifdef VC_SYM
  End e = c.g->at(k);
  EndStep t = c.Try(e);
  // defined only while the search goes on
  if (!t.stuck) {
    if (t.overshot) c.g->Def(k + 1, End{e.s, e.dt * .5, e.n});
    else c.g->Def(k + 1, End{t.cand, e.dt, e.n + 1});
  }
  Inv("state", Same(c.m->CurrentState(), e.s));
  Inv("size", c.out->size() == c.n0 + e.n);
  Inv("count", e.n <= k);
  Inv("count of states", c.n0 <= c.out->size());
  if (c.j < k) {
    End ej = c.g->at(c.j);
    EndStep tj = c.Try(ej);
    Inv("progress", !tj.stuck);
    if (!tj.overshot) {
      Inv("not arrived before", !tj.arrived);
      Inv("index", ej.n < e.n);
      if (ej.n < e.n) Inv("element", Same((*c.out)[c.n0 + ej.n], tj.cand));
    }
  }
#endif
}
// one of the loop's variables is the current step
void EndDt(EndCtx& c, std::uint64_t k, double x) {
#ifdef VC_SYM
  Inv("dt", Same(x, c.g->at(k).dt));
#endif
}
}  // namespace

extern "C" void h_end() {
  PositionModeler m;
  m.Reset(Arb<TipState>(), Arb<PositionModelerParams>());
  std::vector<TipState> out;
  AnySeq(out);
  std::uint64_t n0 = out.size();
  std::vector<TipState> old = out;
  Vec2 anchor = Arb<Vec2>();
  Duration dt = Arb<Duration>();
  int n = Arb<int>();
  float stop = Arb<float>();
  Assume(n < vc::kMaxSteps);
  Ghost<End> g("end", End{m.CurrentState(), dt.Value(), 0});
  EndCtx c{&m, &out, &g, n0, Arb<std::uint64_t>(), anchor, stop, m.Params().spring_mass_constant, m.Params().drag_constant};
  LoopSpec(c, EndLoop);
  LoopSpecCells(c, "d", EndDt);
  m.ModelEndOfStroke(anchor, dt, n, stop, std::back_inserter(out));
  std::uint64_t cnt = n > 0 ? static_cast<std::uint64_t>(n) : 0;
#ifdef VC_SYM
  std::uint64_t K = __vc_last_k();
  End e = g.at(K);
  EndStep t = c.Try(e);
  bool emits = And(!t.stuck, !t.overshot);
  // it stops only because the iterations are used up, it makes no progress, or it has arrived
  VC_ASSERT("C10", "stops for one of the three reasons", Or(K >= cnt, t.stuck, And(emits, t.arrived)));
  VC_ASSERT("C10", "no more iterations than allowed", K <= cnt);
  if (K < cnt) VC_ASSERT("C10", "emits exactly the accepted steps", out.size() == n0 + e.n + (emits ? 1 : 0));
  else VC_ASSERT("C10", "emits exactly the accepted steps", out.size() == n0 + e.n);
  std::uint64_t i = c.j;
  if (Or(i < K, And(i == K, K < cnt))) {
    End ei = g.at(i);
    EndStep ti = c.Try(ei);
    if (And(!ti.stuck, !ti.overshot)) VC_ASSERT("C10", "every emitted state is a step that does not pass the anchor", Same(out[n0 + ei.n], ti.cand));
    if (i < K) VC_ASSERT("C10", "goes on while it makes progress and has not arrived", And(!ti.stuck, Or(ti.overshot, !ti.arrived)));
  }
#else
  End e = g.at(0);
  std::vector<TipState> want;
  for (std::uint64_t k = 0; k < cnt; ++k) {
    EndStep t = c.Try(e);
    if (t.stuck) break;
    if (t.overshot) { e.dt *= .5; continue; }
    want.push_back(t.cand);
    e.s = t.cand;
    if (t.arrived) break;
  }
  VC_ASSERT("C10", "emits exactly the accepted steps", out.size() == n0 + want.size());
  for (std::size_t j = 0; j < want.size(); ++j) VC_ASSERT("C10", "every emitted state is a step that does not pass the anchor", Same(out[n0 + j], want[j]));
#endif
  VC_ASSERT("C07", "end of stroke: at most the allowed number of states", out.size() <= n0 + cnt);
  std::uint64_t jo = Arb<std::uint64_t>();
  if (jo < n0) VC_ASSERT("C05", "end of stroke: appends only", Same(out[jo], old[jo]));
  if (n > 3) VC_COVER("end");
}
