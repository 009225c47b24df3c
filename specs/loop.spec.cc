// C16, C15: strength of loop contraction mitigation from arbitrary samples.
#include "types.h"
#include "lib.inc"
using namespace ink::stroke_model;
using namespace vc;

namespace ink::stroke_model {
using namespace vc;
using S = LoopContractionMitigationModeler::SpeedSample;
inline void Any(S& s) { Any(s.speed); Any(s.time); }
inline bool Same(const S& a, const S& b) { return And(Same(a.speed, b.speed), Same(a.time, b.time)); }
struct LoopCtx {
  LoopContractionMitigationModeler* m;
  std::deque<S>* all;   // the samples and the new one, before any is dropped
  Ghost<float>* g;      // sum of the first k retained samples
  std::uint64_t j;
  double window;
  int min;
};
inline void DropLoop(LoopCtx& c, std::uint64_t k) {
#ifdef VC_SYM
  auto& s = c.m->speed_samples_;
  Inv("dropped", s.size() + k == c.all->size());
  if (c.j < k) {
    Inv("only while the window is exceeded", c.all->back().time.Value() - (*c.all)[c.j].time.Value() > c.window);
    Inv("only while there are more than the minimum", c.all->size() - c.j > static_cast<std::uint64_t>(c.min));
  }
#endif
}
inline void SumCell(LoopCtx& c, std::uint64_t k, float x) {
#ifdef VC_SYM
  auto& s = c.m->speed_samples_;
  if (k < s.size()) c.g->Def(k + 1, c.g->at(k) + s[k].speed);
  Inv("sum", Same(x, c.g->at(k)));
#endif
}
}  // namespace ink::stroke_model

extern "C" void h_loop() {
  LoopContractionMitigationModeler m;
  PositionModelerParams pp = Arb<PositionModelerParams>();
  Assume(ValidatePositionModelerParams(pp).ok());
  auto p = pp.loop_contraction_mitigation_params;
  m.Reset(p);
  VC_ASSERT("C15", "speed window: empty when a stroke starts", m.speed_samples_.empty());
  VC_ASSERT("C16", "the tip is used unchanged before there are samples", m.GetInterpolationValue() == 1);
  AnySeq(m.speed_samples_);
  std::uint64_t snap = 0;
#ifdef VC_SYM
  snap = __vc_snapshot(&m);
#endif
  std::deque<S> all = m.speed_samples_;
  Vec2 v = Arb<Vec2>();
  Time t = Arb<Time>();
  all.push_back(S{std::hypot(v.x, v.y), t});
  Ghost<float> g("speeds", 0.f);
  LoopCtx c{&m, &all, &g, Arb<std::uint64_t>(), p.min_speed_sampling_window.Value(), p.min_discrete_speed_samples};
  LoopSpec(c, DropLoop);
  LoopSpecCells(c, "f", SumCell);
  float r = m.Update(v, t);
  if (!p.is_enabled) {
    VC_ASSERT("C16", "disabled: the tip is used unchanged", r == 1);
#ifdef VC_SYM
    __vc_assert_unchanged(snap, "C16", "disabled: nothing is recorded");
#endif
    VC_COVER("disabled");
    return;
  }
#ifdef VC_SYM
  auto& s = m.speed_samples_;
  std::uint64_t K = all.size() - s.size();
  VC_ASSERT("C15", "speed window: nothing is added but the new sample", And(K < all.size(), s.size() <= all.size()));
  if (c.j < s.size()) VC_ASSERT("C15", "speed window: the most recent samples stay", Same(s[c.j], all[c.j + K]));
  if (c.j < K)
    VC_ASSERT("C15", "speed window: a sample leaves only when there are enough without it and it is too old",
              And(t.Value() - all[c.j].time.Value() > c.window, all.size() - c.j > static_cast<std::uint64_t>(c.min)));
  VC_ASSERT("C15", "speed window: the oldest sample is needed or recent enough",
            Or(!(t.Value() - s[0].time.Value() > c.window), s.size() <= static_cast<std::uint64_t>(c.min)));
  float avg = g.at(s.size()) / static_cast<float>(s.size());
  float lo = p.speed_lower_bound, hi = p.speed_upper_bound;
  float slo = p.interpolation_strength_at_speed_lower_bound, shi = p.interpolation_strength_at_speed_upper_bound;
  float f = hi - lo == 0 ? 0.f : (avg - lo) / (hi - lo);
  f = std::clamp(std::clamp(f, 0.f, 1.f), 0.f, 1.f);
  VC_ASSERT("C16", "strength: linear in the average speed between the bounds", Same(r, slo + (shi - slo) * f));
  VC_ASSERT("C16", "strength: never above the one at the lower bound", Or(std::isnan(avg), r <= slo));
  VC_ASSERT("C16", "strength: never negative", Or(std::isnan(avg), r >= 0));
  if (avg <= lo) VC_ASSERT("C16", "strength: constant up to the lower bound", r == slo);
  VC_COVER("enabled");
#endif
}
