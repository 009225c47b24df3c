// C14: interpolation of orientations.
#include "types.h"
#include "lib.inc"
using namespace ink::stroke_model;
using namespace vc;

static const double kTurn = 2 * 3.14159265358979323846;

// the angle in [0, 2pi) equivalent to a (within one turn)
static float VcPureNormalize(float a) {
  a = static_cast<float>(std::fmod(static_cast<double>(a), kTurn));
  if (a < 0) a = static_cast<float>(a + kTurn);
  if (a < 0) a = static_cast<float>(a + kTurn);   // the remainder was rounded to -2pi
  if (a > kTurn) a = static_cast<float>(a - kTurn);
  return a;
}

extern "C" void h_angle() {
  float start = Arb<float>(), end = Arb<float>(), t = Arb<float>();
  float r = InterpAngle(start, end, t);
  bool fin = And(std::isfinite(start), And(std::isfinite(end), !std::isnan(t)));
  VC_ASSERT("C14", "finite angles give an angle in [0, 2pi)", Implies(fin, And(r >= 0, r < kTurn)));
  VC_ASSERT("C14", "never outside [0, 2pi)", Or(std::isnan(r), And(r >= 0, r < kTurn)));
  if (fin) VC_COVER("angle");
}

extern "C" void h_angle_path() {
  float start = Arb<float>(), end = Arb<float>(), t = Arb<float>();
  float r = InterpAngle(start, end, t);
  // shortest path
  float s = VcPureNormalize(start), e = VcPureNormalize(end);
  float d = e - s;
  if (d < -3.14159265358979323846) e = static_cast<float>(e + kTurn);
  else if (d > 3.14159265358979323846) e = static_cast<float>(e - kTurn);
  float c = std::clamp(t, 0.f, 1.f);
  VC_ASSERT("C14", "interpolates along the shorter arc", Same(r, VcPureNormalize(s + (e - s) * c)));
  VC_COVER("path");
}
