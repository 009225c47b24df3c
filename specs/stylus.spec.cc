// C12, C13, C15: stylus values, from arbitrary retained inputs.
#include "types.h"
#include "lib.inc"
using namespace ink::stroke_model;
using namespace vc;

namespace ink::stroke_model {
using namespace vc;
inline bool Missing(float x) { return Or(x < 0, std::isnan(x)); }
struct UpdCtx {
  StylusStateModeler* m;
  std::deque<Result>* all;
  std::uint64_t j;
  StylusStateModelerParams p;
};
inline bool Droppable(const UpdCtx& c, std::uint64_t i) {   // the i-th of all, when all before it are gone
  std::uint64_t left = c.all->size() - i;
  if (!c.p.use_stroke_normal_projection) return left > static_cast<std::uint64_t>(c.p.max_input_samples);
  if (left <= static_cast<std::uint64_t>(c.p.min_input_samples)) return false;
  return c.all->back().time.Value() - (*c.all)[i + 1].time.Value() > c.p.min_sample_duration.Value();
}
inline void UpdLoop(UpdCtx& c, std::uint64_t k) {
#ifdef VC_SYM
  auto& s = c.m->state_.raw_input_and_stylus_states;
  Inv("dropped", s.size() + k == c.all->size());
  if (c.j < k) Inv("only what is not needed", Droppable(c, c.j));
#endif
}
}  // namespace ink::stroke_model

extern "C" void h_stylus_update() {
#ifdef VC_SYM
  StylusStateModeler m;
  StylusStateModelerParams p = Arb<StylusStateModelerParams>();
  Assume(ValidateStylusStateModelerParams(p).ok());
  m.Reset(p);
  VC_ASSERT("C12", "nothing is missing when a stroke starts", And(!m.state_.received_unknown_pressure, !m.state_.received_unknown_tilt, !m.state_.received_unknown_orientation));
  VC_ASSERT("C15", "stylus window: empty when a stroke starts", m.state_.raw_input_and_stylus_states.empty());
  AnySeq(m.state_.raw_input_and_stylus_states);
  Any(m.state_.received_unknown_pressure);
  Any(m.state_.received_unknown_tilt);
  Any(m.state_.received_unknown_orientation);
  auto s0 = m.state_;
  Vec2 pos = Arb<Vec2>();
  Time t = Arb<Time>();
  StylusState st = Arb<StylusState>();
  std::deque<Result> all = m.state_.raw_input_and_stylus_states;
  Vec2 v{0, 0}, a{0, 0};
  if (!all.empty()) {
    const Result& l = all.back();
    float dt = static_cast<float>(t.Value() - l.time.Value());
    if (t.Value() != l.time.Value()) {
      v = {(pos.x - l.position.x) / dt, (pos.y - l.position.y) / dt};
      a = {(v.x - l.velocity.x) / dt, (v.y - l.velocity.y) / dt};
    }
  }
  Result want;
  want.position = pos; want.velocity = v; want.acceleration = a; want.time = t;
  want.pressure = st.pressure; want.tilt = st.tilt; want.orientation = st.orientation;
  all.push_back(want);
  UpdCtx c{&m, &all, Arb<std::uint64_t>(), p};
  LoopSpec(c, UpdLoop);
  m.Update(pos, t, st);
  auto& s = m.state_;
  VC_ASSERT("C12", "pressure is missing from the first input without it", s.received_unknown_pressure == Or(s0.received_unknown_pressure, Missing(st.pressure)));
  VC_ASSERT("C12", "tilt is missing from the first input without it", s.received_unknown_tilt == Or(s0.received_unknown_tilt, Missing(st.tilt)));
  VC_ASSERT("C12", "orientation is missing from the first input without it", s.received_unknown_orientation == Or(s0.received_unknown_orientation, Missing(st.orientation)));
  auto& q = s.raw_input_and_stylus_states;
  if (And(!p.use_stroke_normal_projection, s.received_unknown_pressure, s.received_unknown_tilt, s.received_unknown_orientation)) {
    // nothing will be interpolated any more: what is retained does not matter
    VC_ASSERT("C15", "stylus window: does not grow", q.size() <= all.size());
    VC_COVER("all missing");
    return;
  }
  std::uint64_t K = all.size() - q.size();
  VC_ASSERT("C15", "stylus window: nothing is added but the new input", And(q.size() >= 1, q.size() <= all.size()));
  if (c.j < q.size()) {
    VC_ASSERT("C13", "stylus window: the inputs are retained as received", Same(q[c.j], all[c.j + K]));
    VC_ASSERT("C15", "stylus window: the most recent inputs stay", Same(q[c.j].time, all[c.j + K].time));
  }
  if (c.j < K) VC_ASSERT("C15", "stylus window: only inputs that are not needed leave", Droppable(c, c.j));
  if (p.use_stroke_normal_projection) {
    if (q.size() > static_cast<std::uint64_t>(p.min_input_samples))
      VC_ASSERT("C15", "stylus window: no longer than needed", Or(q.size() < 2, !(t.Value() - q[1].time.Value() > p.min_sample_duration.Value())));
    VC_COVER("normal");
  } else {
    VC_ASSERT("C15", "stylus window: at most the maximum number", q.size() <= static_cast<std::uint64_t>(p.max_input_samples));
    VC_COVER("closest");
  }
#endif
}

namespace ink::stroke_model {
struct Best { bool has; int i; float r, d; };
inline bool Same(const Best& a, const Best& b) { return And(a.has == b.has, Same(a.d, b.d), Or(!a.has, And(a.i == b.i, Same(a.r, b.r)))); }
inline float RefLerp(float a, float b, float f) { return a + (b - a) * std::clamp(f, 0.f, 1.f); }
inline Vec2 RefLerp(Vec2 a, Vec2 b, float f) { float c = std::clamp(f, 0.f, 1.f); return {a.x + c * (b.x - a.x), a.y + c * (b.y - a.y)}; }
inline float RefDist(Vec2 a, Vec2 b) { return std::hypot(b.x - a.x, b.y - a.y); }
struct QCtx {
  const std::deque<Result>* s;
  Vec2 pos, nrm;
  Ghost<Best>* g;      // the best of the first k segments
  Fun<Best>* seg;      // the candidate of segment i
  std::uint64_t j;
  // nearest point of segment i
  Best Nearest(std::uint64_t i) const {
    Vec2 a = (*s)[i].position, b = (*s)[i + 1].position;
    float r = 0;
    if (Or(a.x != b.x, a.y != b.y)) {
      float vx = b.x - a.x, vy = b.y - a.y;
      r = std::clamp(((pos.x - a.x) * vx + (pos.y - a.y) * vy) / (vx * vx + vy * vy), 0.f, 1.f);
    }
    return {true, static_cast<int>(i), r, RefDist(pos, RefLerp(a, b, r))};
  }
  // crossing of the normal with segment i
  Best Crossing(std::uint64_t i, bool* left) const {
    Vec2 a = (*s)[i].position, b = (*s)[i + 1].position;
    float vx = b.x - a.x, vy = b.y - a.y;
    float det = nrm.x * vy - nrm.y * vx;
    float wx = a.x - pos.x, wy = a.y - pos.y;
    float r = (wx * nrm.y - wy * nrm.x) / det;
    bool ok = And(!(det == 0), !(r < 0), !(r > 1));
    Vec2 p = RefLerp(a, b, r);
    *left = !((p.x - pos.x) * nrm.x + (p.y - pos.y) * nrm.y < 0);
    return {ok, static_cast<int>(i), r, RefDist(pos, p)};
  }
};
inline void NearLoop(QCtx& c, std::uint64_t k) {
#ifdef VC_SYM
  if (k + 1 < c.s->size()) {
    c.seg->Def(k, c.Nearest(k));
    Best b = c.seg->at(k), g = c.g->at(k);
    c.g->Def(k + 1, b.d <= g.d ? b : g);
  }
  Best g = c.g->at(k);
  Inv("bounds", k < c.s->size());
  if (g.has) {
    Inv("index", And(g.i >= 0, static_cast<std::uint64_t>(g.i) < k));
    Best b = c.seg->at(static_cast<std::uint64_t>(g.i));
    Inv("is a segment", And(Same(b.r, g.r), Same(b.d, g.d)));
  }
  Inv("none yet", Or(g.has, g.d == std::numeric_limits<float>::infinity()));
  if (c.j < k) {
    Best b = c.seg->at(c.j);
    Inv("nearest", !(b.d < g.d));
    Inv("latest", Or(!(b.d <= g.d), And(g.has, c.j <= static_cast<std::uint64_t>(g.i))));
  }
#endif
}
inline void NearF(QCtx& c, std::uint64_t k, float x) {
#ifdef VC_SYM
  Best g = c.g->at(k);
  Inv("distance", Same(x, g.d));
  Inv("ratio", Or(!g.has, Same(x, g.r)));
#endif
}
inline void NearI(QCtx& c, std::uint64_t k, int x) {
#ifdef VC_SYM
  Best g = c.g->at(k);
  Inv("segment", Or(!g.has, x == g.i));
#endif
}
inline void NearB(QCtx& c, std::uint64_t k, bool x) {
#ifdef VC_SYM
  Best g = c.g->at(k);
  Inv("found", x == g.has);
#endif
}
inline Result RefInterp(const Result& a, const Result& b, float f) {
  Result r;
  r.position = RefLerp(a.position, b.position, f);
  r.velocity = RefLerp(a.velocity, b.velocity, f);
  r.acceleration = RefLerp(a.acceleration, b.acceleration, f);
  r.time = Time(0);
  r.pressure = Or(a.pressure < 0, b.pressure < 0) ? -1 : RefLerp(a.pressure, b.pressure, f);
  r.tilt = Or(a.tilt < 0, b.tilt < 0) ? -1 : RefLerp(a.tilt, b.tilt, f);
  r.orientation = Or(a.orientation < 0, b.orientation < 0) ? -1 : InterpAngle(a.orientation, b.orientation, f);
  return r;
}
}  // namespace ink::stroke_model

static void CheckQuery(const StylusStateModeler& m, const Result& r, const Result& w, Time t) {
#ifdef VC_SYM
  auto& s = m.state_;
  VC_ASSERT("C13", "position at the projection", Same(r.position, w.position));
  VC_ASSERT("C13", "velocity at the projection", Same(r.velocity, w.velocity));
  VC_ASSERT("C13", "acceleration at the projection", Same(r.acceleration, w.acceleration));
  VC_ASSERT("C08", "values at the time of the tip", Same(r.time, t));
  if (s.received_unknown_pressure) VC_ASSERT("C12", "missing pressure is -1", r.pressure == -1);
  else VC_ASSERT("C13", "pressure at the projection", Same(r.pressure, w.pressure));
  if (s.received_unknown_tilt) VC_ASSERT("C12", "missing tilt is -1", r.tilt == -1);
  else VC_ASSERT("C13", "tilt at the projection", Same(r.tilt, w.tilt));
  if (s.received_unknown_orientation) VC_ASSERT("C12", "missing orientation is -1", r.orientation == -1);
  else VC_ASSERT("C13", "orientation at the projection", Same(r.orientation, w.orientation));
#endif
}
#ifdef VC_SYM
static void ArbState(StylusStateModeler& m) {
  m.Reset(Arb<StylusStateModelerParams>());
  AnySeq(m.state_.raw_input_and_stylus_states);
  Any(m.state_.received_unknown_pressure);
  Any(m.state_.received_unknown_tilt);
  Any(m.state_.received_unknown_orientation);
}
#endif
extern "C" void h_nearest() {
#ifdef VC_SYM
  Opaque(&InterpAngle);
  StylusStateModeler m;
  ArbState(m);
  const StylusStateModeler& cm = m;
  const std::deque<Result> s = m.state_.raw_input_and_stylus_states;
  TipState tip = Arb<TipState>();
  Assume(s.size() >= 1);
  std::optional<Vec2> normal = Arb<Vec2>();
  if (Or(Arb<bool>(), m.params_.use_stroke_normal_projection)) normal.reset();
  Ghost<Best> g("nearest", Best{false, 0, 0, std::numeric_limits<float>::infinity()});
  Fun<Best> seg("segment");
  QCtx c{&s, tip.position, {}, &g, &seg, Arb<std::uint64_t>()};
  LoopSpec(c, NearLoop);
  LoopSpecCells(c, "f", NearF);
  LoopSpecCells(c, "i", NearI);
  LoopSpecCells(c, "b", NearB);
  Result r = cm.Query(tip, normal);
  std::uint64_t n = s.size() - 1;
  Best b = g.at(n);
  if (c.j < n) seg.Def(c.j, c.Nearest(c.j));
  if (b.has) {
    std::uint64_t i = static_cast<std::uint64_t>(b.i);
    VC_ASSERT("C13", "a segment of the polyline", And(b.i >= 0, i < n));
    seg.Def(i, c.Nearest(i));
    Best at = seg.at(i), o = seg.at(c.j);
    if (c.j < n) VC_ASSERT("C13", "no segment is nearer", !(o.d < at.d));
    if (And(c.j < n, c.j > i)) VC_ASSERT("C13", "the latest of the nearest segments", !(o.d <= at.d));
    CheckQuery(m, r, RefInterp(s[i], s[i + 1], at.r), tip.time);
    VC_COVER("segment");
  } else {
    if (c.j < n) VC_ASSERT("C13", "no segment has a distance", !(seg.at(c.j).d <= std::numeric_limits<float>::infinity()));
    CheckQuery(m, r, RefDist(s[0].position, tip.position) < RefDist(s[n].position, tip.position) ? s[0] : s[n], tip.time);
    VC_COVER("end point");
  }
#endif
}

namespace ink::stroke_model {
struct Cross { Best b; bool left; };
inline bool Same(const Cross& a, const Cross& b) { return And(Same(a.b, b.b), Or(!a.b.has, a.left == b.left)); }
struct NCtx : QCtx {
  Ghost<Best>* left;    // the best of the first k segments, on either side
  Ghost<Best>* right;
  Fun<Cross>* seg2;
  Cross At(std::uint64_t i) const { Cross r; r.b = Crossing(i, &r.left); return r; }
};
#ifdef VC_SYM
// b is the nearest crossing on the given side among those seen; c is one of them
#define SIDE_INV(SIDE, IS_LEFT)                                                                                        \
  {                                                                                                                    \
    Best g = c.SIDE->at(k);                                                                                            \
    Cross b = c.seg2->at(static_cast<std::uint64_t>(g.i)), o = c.seg2->at(c.j);                                        \
    Inv(#SIDE ": index", Or(!g.has, And(g.i >= 0, static_cast<std::uint64_t>(g.i) < k)));                               \
    Inv(#SIDE ": is a crossing", Or(!g.has, And(b.b.has, b.left == IS_LEFT, Same(b.b.r, g.r), Same(b.b.d, g.d))));      \
    Inv(#SIDE ": none yet", Or(g.has, g.d == std::numeric_limits<float>::infinity()));                                 \
    Inv(#SIDE ": nearest", Or(!(c.j < k), !o.b.has, o.left != IS_LEFT, !(o.b.d < g.d)));                               \
  }
#endif
inline void NormLoop(NCtx& c, std::uint64_t k) {
#ifdef VC_SYM
  if (k + 1 < c.s->size()) {
    c.seg2->Def(k, c.At(k));
    Cross b = c.seg2->at(k);
    Best l = c.left->at(k), r = c.right->at(k);
    c.left->Def(k + 1, And(b.b.has, b.left, b.b.d < l.d) ? b.b : l);
    c.right->Def(k + 1, And(b.b.has, !b.left, b.b.d < r.d) ? b.b : r);
  }
  Inv("bounds", k < c.s->size());
  SIDE_INV(left, true);
  SIDE_INV(right, false);
#endif
}
inline void NormF(NCtx& c, std::uint64_t k, float x) {
#ifdef VC_SYM
  Best l = c.left->at(k), r = c.right->at(k);
  Inv("left distance", Same(x, l.d));
  Inv("right distance", Same(x, r.d));
  Inv("left ratio", Or(!l.has, Same(x, l.r)));
  Inv("right ratio", Or(!r.has, Same(x, r.r)));
#endif
}
inline void NormI(NCtx& c, std::uint64_t k, int x) {
#ifdef VC_SYM
  Best l = c.left->at(k), r = c.right->at(k);
  Inv("left segment", Or(!l.has, x == l.i));
  Inv("right segment", Or(!r.has, x == r.i));
#endif
}
inline void NormB(NCtx& c, std::uint64_t k, bool x) {
#ifdef VC_SYM
  Best l = c.left->at(k), r = c.right->at(k);
  Inv("left found", x == l.has);
  Inv("right found", x == r.has);
#endif
}
}  // namespace ink::stroke_model

extern "C" void h_normal() {
#ifdef VC_SYM
  Opaque(&InterpAngle);
  StylusStateModeler m;
  ArbState(m);
  const StylusStateModeler& cm = m;
  const std::deque<Result> s = m.state_.raw_input_and_stylus_states;
  TipState tip = Arb<TipState>();
  Assume(And(s.size() >= 1, m.params_.use_stroke_normal_projection));
  Vec2 normal = Arb<Vec2>();
  Best none{false, 0, 0, std::numeric_limits<float>::infinity()};
  Ghost<Best> left("left", none), right("right", none);
  Fun<Cross> seg("crossing");
  NCtx c;
  c.s = &s; c.pos = tip.position; c.nrm = normal; c.j = Arb<std::uint64_t>(); c.left = &left; c.right = &right; c.seg2 = &seg;
  LoopSpec(c, NormLoop);
  LoopSpecCells(c, "f", NormF);
  LoopSpecCells(c, "i", NormI);
  LoopSpecCells(c, "b", NormB);
  Result r = cm.Query(tip, normal);
  std::uint64_t n = s.size() - 1;
  Best gl = left.at(n), gr = right.at(n);
  bool outer_right = normal.x * tip.acceleration.x + normal.y * tip.acceleration.y > 0;
  bool on_right = false;
  if (And(gr.has, Or(!gl.has, outer_right))) on_right = true;
  Best b = gl;
  if (on_right) b = gr;
  if (c.j < n) seg.Def(c.j, c.At(c.j));
  Cross o = seg.at(c.j);
  bool other = And(c.j < n, o.b.has, o.left == !on_right);   // another crossing, on the chosen side
  if (b.has) {
    std::uint64_t i = static_cast<std::uint64_t>(b.i);
    VC_ASSERT("C13", "normal: a segment of the polyline", And(b.i >= 0, i < n));
    seg.Def(i, c.At(i));
    Cross at = seg.at(i);
    VC_ASSERT("C13", "normal: a crossing on the chosen side", And(at.b.has, at.left == !on_right));
    if (other) VC_ASSERT("C13", "normal: no crossing on that side is nearer", !(o.b.d < at.b.d));
    CheckQuery(m, r, RefInterp(s[i], s[i + 1], at.b.r), tip.time);
    VC_COVER("crossing");
  } else {
    if (And(c.j < n, o.b.has)) VC_ASSERT("C13", "normal: no crossing at a distance", !(o.b.d < std::numeric_limits<float>::infinity()));
    CheckQuery(m, r, RefDist(s[0].position, tip.position) < RefDist(s[n].position, tip.position) ? s[0] : s[n], tip.time);
    VC_COVER("end point");
  }
#endif
}
