// C07: the number of steps between two inputs.
#include "types.h"
#include "lib.inc"
using namespace ink::stroke_model;
using namespace vc;

namespace {
bool FinV(Vec2 v) { return And(Fin(v.x), Fin(v.y)); }
// the angle between two directions, 0 if one of them is none
float RefAngle(Vec2 a, Vec2 b) {
  float la = std::hypot(a.x, a.y), lb = std::hypot(b.x, b.y);
  if (Or(la == 0, lb == 0)) return 0;
  float dot = a.x / la * (b.x / lb) + a.y / la * (b.y / lb);
  return std::acos(std::clamp(dot, -1.f, 1.f));
}
}  // namespace

extern "C" void h_steps() {
  TipState tip = Arb<TipState>();
  Input a = Arb<Input>(), b = Arb<Input>();
  SamplingParams sp = Arb<SamplingParams>();
  PositionModelerParams pp = Arb<PositionModelerParams>();
  Assume(ValidateSamplingParams(sp).ok());
  Assume(sp.max_outputs_per_call < 0x7fffffff);   // 2^31 - 1 results need more than 100 GB
  Assume(And(Fin(pp.spring_mass_constant), pp.spring_mass_constant > 0));
  Assume(And(FinV(a.position), FinV(b.position), Fin(a.time.Value()), Fin(b.time.Value()), a.time.Value() <= b.time.Value()));
  absl::StatusOr<int> r = NumberOfStepsBetweenInputs(tip, a, b, sp, pp);
  float dt = static_cast<float>(b.time.Value() - a.time.Value());
  Vec2 v0 = tip.velocity;
  Vec2 v1{v0.x + dt * ((b.position.x - tip.position.x) / pp.spring_mass_constant), v0.y + dt * ((b.position.y - tip.position.y) / pp.spring_mass_constant)};
  bool computable = And(FinV(v0), FinV(v1));
  if (!computable) {
    VC_ASSERT("C07", "steps: refused when the motion cannot be estimated", !r.ok());
    VC_ASSERT("C03", "steps: refused as an invalid argument", r.status().code() == absl::StatusCode::kInvalidArgument);
    return;
  }
  double x = dt * sp.min_output_rate;
  double need = std::ceil(x);
  double limit = sp.max_estimated_angle_to_traverse_per_input;
  if (limit > 0) {
    double y = RefAngle(v0, v1) / limit;
    double c = std::ceil(y);
    if (c > need) need = c;
    if (r.ok()) VC_ASSERT("C07", "steps: the direction changes by at most the limit per step", static_cast<double>(*r) >= y);
    VC_COVER("angle");
  }
  if (need <= sp.max_outputs_per_call) {
    VC_ASSERT("C07", "steps: accepted when within the limit", r.ok());
    VC_ASSERT("C07", "steps: the smallest sufficient number", static_cast<double>(*r) == need);
    VC_ASSERT("C07", "steps: the minimum output rate is met", static_cast<double>(*r) >= x);
    VC_ASSERT("C07", "steps: not negative", *r >= 0);
    VC_COVER("accepted");
  } else {
    VC_ASSERT("C07", "steps: refused beyond the limit", !r.ok());
    VC_ASSERT("C03", "steps: refused as an invalid argument", r.status().code() == absl::StatusCode::kInvalidArgument);
    VC_COVER("refused");
  }
}
