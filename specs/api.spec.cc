// Executable search over whole histories, through the public interface only.
// It confirms failed obligations with a failing history and stands in, bounded,
// where a changed source is outside the verifier's reach.  Nothing here is a proof.
#include "ref.h"
#include "lib.inc"
#include "ink_stroke_modeler/stroke_modeler.h"
using namespace ink::stroke_model;
using namespace vc;
#ifndef VC_SYM
namespace {
vc_native::Tape& T() { return vc_native::tape(); }
bool Want(const char* p) { return !vc_native::only() || !std::strcmp(vc_native::only(), p); }
double U(double a, double b) { return a + (b - a) * T().unit(); }
int N(int a, int b) { return a + static_cast<int>(T().below(static_cast<std::uint64_t>(b - a + 1))); }
bool Coin(int n) { return T().below(static_cast<std::uint64_t>(n)) == 0; }
// a failure of any of these properties
void Check(bool c, std::initializer_list<const char*> props, const char* label) {
  if (c) { ++vc_native::nchecks(); return; }
  const char* o = vc_native::only();
  for (const char* p : props) if (!o || !std::strcmp(o, p)) throw vc_native::Failure{p, label};
  throw vc_native::Discard();
}

struct Feat { int wobble = -1, loop = -1, normal = -1, pred = -1, unknown = -1; };
StrokeModelParams GenParams(const Feat& f) {
  StrokeModelParams p;
  auto flag = [](int v, int n) { return v < 0 ? Coin(n) : v == 1; };
  auto& w = p.wobble_smoother_params;
  w.is_enabled = flag(f.wobble, 2);
  w.timeout = Duration(Coin(8) ? 0.0 : U(.005, .1));
  w.speed_floor = static_cast<float>(Coin(8) ? 0 : U(0, 300));
  w.speed_ceiling = w.speed_floor + static_cast<float>(Coin(8) ? 0 : U(0, 300));
  auto& q = p.position_modeler_params;
  q.spring_mass_constant = static_cast<float>(Coin(3) ? 11. / 32400 : U(1e-4, 5e-3));
  q.drag_constant = static_cast<float>(Coin(3) ? 72. : U(20, 90));
  auto& l = q.loop_contraction_mitigation_params;
  l.is_enabled = flag(f.loop, 2);
  l.speed_lower_bound = static_cast<float>(Coin(8) ? 0 : U(0, 100));
  l.speed_upper_bound = l.speed_lower_bound + static_cast<float>(Coin(8) ? 0 : U(0, 300));
  l.interpolation_strength_at_speed_lower_bound = static_cast<float>(Coin(4) ? 1 : U(.5, 1));
  l.interpolation_strength_at_speed_upper_bound = static_cast<float>(Coin(4) ? 0 : U(0, .5));
  l.min_speed_sampling_window = Duration(U(.01, .1));
  l.min_discrete_speed_samples = N(1, 6);
  auto& s = p.sampling_params;
  s.min_output_rate = Coin(2) ? 180 : U(30, 400);
  s.end_of_stroke_stopping_distance = static_cast<float>(Coin(2) ? .001 : U(1e-4, .1));
  s.end_of_stroke_max_iterations = Coin(3) ? N(1, 8) : N(10, 40);
  s.max_outputs_per_call = Coin(3) ? N(1, 30) : N(50, 500);
  s.max_estimated_angle_to_traverse_per_input = Coin(2) ? -1 : U(.05, 1.5);
  auto& y = p.stylus_state_modeler_params;
  y.use_stroke_normal_projection = flag(f.normal, 2) || l.is_enabled;
  y.max_input_samples = N(1, 12);
  y.min_input_samples = N(1, 12);
  y.min_sample_duration = Duration(Coin(6) ? 0.001 : U(.001, .2));
  if (Coin(4)) p.experimental_params = {};
  int k = f.pred < 0 ? N(0, 2) : f.pred;
  if (k == 0) p.prediction_params = StrokeEndPredictorParams{};
  else if (k == 1) {
    KalmanPredictorParams z;
    z.process_noise = U(.01, 1);
    z.measurement_noise = U(.001, 1);
    z.min_stable_iteration = N(1, 6);
    z.max_time_samples = N(1, 24);
    z.min_catchup_velocity = static_cast<float>(U(.01, 5));
    z.acceleration_weight = static_cast<float>(U(0, 1));
    z.jerk_weight = static_cast<float>(U(0, .2));
    z.prediction_interval = Duration(U(.005, .05));
    auto& c = z.confidence_params;
    c.desired_number_of_samples = N(1, 25);
    c.max_estimation_distance = static_cast<float>(U(.1, 5));
    c.min_travel_speed = static_cast<float>(U(0, 5));
    c.max_travel_speed = c.min_travel_speed + static_cast<float>(U(.1, 50));
    c.max_linear_deviation = static_cast<float>(U(.5, 50));
    c.baseline_linearity_confidence = static_cast<float>(U(0, 1));
    p.prediction_params = z;
  } else p.prediction_params = DisabledPredictorParams{};
  return p;
}

struct Gen {
  bool down = false;
  double t = 0, x = 0, y = 0, vx = 0, vy = 0;
  int unknown;   // bit mask: fields sometimes missing
  Input last{};
  explicit Gen(int u) : unknown(u) { t = Coin(4) ? 0 : U(0, 10); x = U(-20, 20); y = U(-20, 20); Turn(); }
  void Turn() { double s = Coin(4) ? U(0, 300) : U(0, 60); double a = U(0, 6.3); vx = s * std::cos(a); vy = s * std::sin(a); }
  void Fill(Input& i) {
    i.position = {static_cast<float>(x), static_cast<float>(y)};
    i.time = Time(t);
    i.pressure = static_cast<float>(U(0, 1));
    i.tilt = static_cast<float>(U(0, 1.57));
    i.orientation = static_cast<float>(U(0, 6.28));
    auto miss = [](float& f) { f = Coin(6) ? std::nanf("") : Coin(3) ? -.5f : -1.f; };
    if ((unknown & 1) && Coin(6)) miss(i.pressure);
    if ((unknown & 2) && Coin(6)) miss(i.tilt);
    if ((unknown & 4) && Coin(6)) miss(i.orientation);
    if (unknown & 8) { i.pressure = -1; i.tilt = -1; i.orientation = -1; }
  }
  Input Next(int wild) {   // wild: one in so many inputs is malformed
    Input i{};
    double dt = Coin(8) ? 0 : Coin(20) ? U(.1, 1) : Coin(2) ? .005 : U(.001, .03);
    double t0 = t, x0 = x, y0 = y;
    t += dt;
    if (Coin(5)) Turn();
    if (!Coin(10)) { x += vx * dt; y += vy * dt; }
    if (Coin(12)) { x = last.position.x; y = last.position.y; }
    if (Coin(40)) { x = std::nextafterf(last.position.x, 1e9f); }
    Fill(i);
    i.event_type = !down ? Input::EventType::kDown : Coin(14) ? Input::EventType::kUp : Input::EventType::kMove;
    if (wild && Coin(wild)) {
      bool rest = true;
      switch (N(0, 9)) {
        case 0: i.event_type = static_cast<Input::EventType>(N(0, 2)); rest = false; break;
        case 1: i.event_type = static_cast<Input::EventType>(Coin(2) ? N(3, 9) : N(-4, -1)); break;
        case 2: i.time = Time(last.time.Value() - U(0, .1)); break;
        case 3: i = last; break;
        case 4: (Coin(2) ? i.position.x : i.position.y) = Coin(2) ? std::nanf("") : Coin(2) ? HUGE_VALF : -HUGE_VALF; break;
        case 5: i.time = Time(Coin(2) ? std::nan("") : Coin(2) ? HUGE_VAL : -HUGE_VAL); break;
        case 6: i.time = Time(t + U(0, 100)); break;
        case 7: i.position.x = static_cast<float>(Coin(2) ? 3e38 : U(-1e6, 1e6)); break;
        case 8: i = last; i.event_type = static_cast<Input::EventType>(N(0, 2)); break;
        default: i.time = last.time; rest = false; break;
      }
      if (rest) { t = t0; x = x0; y = y0; }
    }
    return i;
  }
  void Accepted(const Input& i) {
    last = i;
    down = i.event_type != Input::EventType::kUp;
    t = i.time.Value(); x = i.position.x; y = i.position.y;
    if (!down) { if (Coin(3)) t = U(0, 10); if (Coin(2)) { x = U(-20, 20); y = U(-20, 20); } }
  }
  void Idle() { down = false; }
};

bool Small(const std::vector<Result>& v) {
  for (auto& r : v) {
    for (float f : {r.position.x, r.position.y, r.velocity.x, r.velocity.y, r.acceleration.x, r.acceleration.y}) if (!(std::fabs(f) < 1e7f)) return false;
  }
  return true;
}
// Agreement up to rounding; a stroke can amplify rounding, so the comparison is relative to the scale of the values.
bool Near(float a, float b, float s) { return (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) <= 2e-3f * s + 2e-3f * std::max(std::fabs(a), std::fabs(b)); }
bool NearV(Vec2 a, Vec2 b, float s) { return Near(a.x, b.x, s) && Near(a.y, b.y, s); }
template <class F> bool Exact(F a, F b) { return a == b || (std::isnan(a) && std::isnan(b)); }
bool ExactR(const Result& a, const Result& b) {
  return Exact(a.position.x, b.position.x) && Exact(a.position.y, b.position.y) && Exact(a.velocity.x, b.velocity.x) && Exact(a.velocity.y, b.velocity.y) &&
         Exact(a.acceleration.x, b.acceleration.x) && Exact(a.acceleration.y, b.acceleration.y) && Exact(a.time.Value(), b.time.Value()) &&
         Exact(a.pressure, b.pressure) && Exact(a.tilt, b.tilt) && Exact(a.orientation, b.orientation);
}
bool ExactS(const std::vector<Result>& a, const std::vector<Result>& b, std::size_t from = 0) {
  if (a.size() != b.size()) return false;
  for (std::size_t i = from; i < a.size(); ++i) if (!ExactR(a[i], b[i])) return false;
  return true;
}
int Code(const absl::Status& s) { return static_cast<int>(s.code()); }
float AngDiff(float a, float b) { float d = std::fabs(a - b); return std::min(d, std::fabs(d - 6.2831853f)); }

enum Op { kUpdate, kPredict, kReset, kResetParams, kSave, kRestore };
struct Step { Op op; Input in; StrokeModelParams params; };

// Agreement of the results [from, ...) with the reference; returns the kind of the first difference.
// n number, t time, p motion, s sentinel, y stylus value, o orientation
char Compare(const std::vector<Result>& a, const std::vector<Result>& b, std::size_t from) {
  if (a.size() != b.size()) return 'n';
  for (std::size_t i = from; i < a.size(); ++i) {
    const Result &x = a[i], &y = b[i];
    if (std::fabs(x.time.Value() - y.time.Value()) > 1e-5) return 't';
    if (!NearV(x.position, y.position, 1e-2f) || !NearV(x.velocity, y.velocity, 1.f) || !NearV(x.acceleration, y.acceleration, 400.f)) return 'p';
    auto un = [](float f) { return !(f >= 0); };
    if (un(x.pressure) != un(y.pressure) || un(x.tilt) != un(y.tilt) || un(x.orientation) != un(y.orientation)) return 's';
    if (un(x.pressure) && x.pressure != y.pressure && i >= from && a.size() > 1 && !std::isnan(y.pressure)) return 's';
    if (un(x.tilt) && x.tilt != y.tilt && !std::isnan(y.tilt)) return 's';
    if (un(x.orientation) && x.orientation != y.orientation && !std::isnan(y.orientation)) return 's';
  }
  return 0;
}
char CompareStylus(const std::vector<Result>& a, const std::vector<Result>& b, std::size_t from) {
  int bad = 0, badO = 0, n = 0;
  for (std::size_t i = from; i < a.size(); ++i) {
    const Result &x = a[i], &y = b[i];
    if (!(x.pressure >= 0) && !(x.tilt >= 0) && !(x.orientation >= 0)) continue;
    ++n;
    if (!Near(x.pressure, y.pressure, 1.f) || !Near(x.tilt, y.tilt, 1.f)) ++bad;
    else if (x.orientation >= 0 && !(AngDiff(x.orientation, y.orientation) < .02f)) ++badO;
    if (x.orientation >= 0 && !(x.orientation < 6.2832f)) return 'o';
  }
  return bad ? 'y' : badO ? 'o' : 0;
}
}  // namespace
#endif

// One history, compared with the reference model.
extern "C" void h_history() {
#ifndef VC_SYM
  Feat f;
  const char* o = vc_native::only();
  auto is = [&](const char* p) { return o && !std::strcmp(o, p); };
  bool motion = is("C09") || is("C10") || is("C07") || is("C08"), stylus = is("C12") || is("C13") || is("C14") || is("C15");
  if (motion || stylus || is("C20") || is("C21") || is("C22")) f.loop = f.wobble = 0;
  if (is("C11")) { f.loop = 0; f.wobble = 1; }
  if (is("C16")) { f.loop = 1; f.wobble = 0; }
  if (is("C20") || is("C21")) f.pred = 1;
  if (is("C22")) f.pred = 0;
  if (motion || is("C11") || is("C16")) f.pred = 2;
  int unknown = stylus ? (is("C12") ? N(1, 15) : (Coin(3) ? N(0, 7) : 0)) : Coin(2) ? 0 : N(0, 15);
  int wild = is("C03") || is("C04") || is("C02") ? 4 : Coin(2) ? 0 : 12;
  StrokeModelParams params = GenParams(f);
  std::vector<Step> hist;
  StrokeModeler m;
  ref::Model r;
  Gen g(unknown);
  std::vector<Result> out, want;
  auto seed_out = [&] { if (Coin(3)) { out.clear(); } };
  if (Coin(4)) {
    Check(Code(m.Update(g.Next(wild), out)) == 9 && out.empty(), {"C03"}, "an update before initialisation is refused");
    std::vector<Result> pr(1);
    Check(Code(m.Predict(pr)) == 9 && pr.empty(), {"C03", "C05"}, "a prediction before initialisation is refused");
    Check(Code(m.Reset()) == 9, {"C02", "C03"}, "a reset without parameters before initialisation is refused");
    if (Coin(2)) { m.Save(); r.Save(); }
    if (Coin(2)) { m.Restore(); r.Restore(); }
  }
  Check(m.Reset(params).ok(), {"C01"}, "valid parameters are accepted");
  r.Reset(params);
  int len = N(3, 60);
  for (int i = 0; i < len; ++i) {
    int k = N(0, 99);
    if (k < 78) {
      Input in = g.Next(wild);
      seed_out();
      std::size_t n0 = out.size();
      std::vector<Result> before = out;
      want = out;
      bool had = r.s.active;
      Time t0 = r.s.last.time;
      ref::Model keep = r;
      int wc = r.Update(in, want);
      absl::Status st = m.Update(in, out);
      if ((wc == 3) != (Code(st) == 3) && ref::Model::Bad(in) == 0 && had && in.time.Value() >= t0.Value()) {
        // at the edge of the allowed number of outputs rounding decides
        ref::Model a = keep, b = keep;
        std::vector<Result> tmp;
        a.p->sampling_params.max_outputs_per_call += 1;
        b.p->sampling_params.max_outputs_per_call -= 1;
        if (a.Update(in, tmp) != b.Update(in, tmp)) throw vc_native::Discard();
        Check(false, {"C03", "C07"}, "an input is refused exactly when it needs more outputs than allowed");
      }
      Check(Code(st) == wc, {"C03"}, "status of an update");
      if (wc != 0) { Check(ExactS(out, before), {"C04", "C05"}, "a refused update leaves the results alone"); continue; }
      Check(out.size() >= n0, {"C05"}, "results are only appended");
      for (std::size_t j = 0; j < n0; ++j) Check(ExactR(out[j], before[j]), {"C05"}, "results are only appended");
      if (in.event_type == Input::EventType::kDown) {
        Check(out.size() == n0 + 1, {"C06"}, "a down event gives one result");
        Check(ExactR(out.back(), want.back()), {"C06"}, "a down event is echoed");
      }
      int budget = params.sampling_params.max_outputs_per_call;
      Check(out.size() - n0 <= static_cast<std::size_t>(std::max(budget, 1)), {"C07"}, "no more results than allowed");
      if (Small(out)) for (std::size_t j = n0; j < out.size(); ++j) {
        if (j > n0) Check(out[j].time >= out[j - 1].time, {"C08"}, "times never decrease");
        if (had) Check(out[j].time >= t0, {"C08"}, "no result before the previous input");
      }
      if (!Small(want) || !Small(out)) throw vc_native::Discard();
      char d = Compare(out, want, n0);
      bool up = in.event_type == Input::EventType::kUp;
      if (d == 'n') {
        // the same input with slightly more or fewer steps is also acceptable only through rounding
        if (up) Check(false, {"C10", "C07"}, "number of results of an up event");
        ref::Model a = keep;
        std::vector<Result> tmp;
        double s = keep.Steps(in);
        double got = static_cast<double>(out.size() - n0);
        double x = static_cast<double>(static_cast<float>(in.time.Value() - t0.Value())) * params.sampling_params.min_output_rate;
        if (std::fabs(got - s) <= 1 && (std::fabs(x - std::nearbyint(x)) < 1e-4 || params.sampling_params.max_estimated_angle_to_traverse_per_input > 0)) throw vc_native::Discard();
        Check(false, {"C07"}, "number of results of a move event");
      }
      if (d == 't') Check(false, {"C09", "C10", "C08"}, "times of results");
      if (d == 'p') {
        // attribute: the same with the optional stages off
        if (up) Check(false, {"C10", "C09", "C16", "C11"}, "motion of results of an up event");
        Check(false, {"C09", "C11", "C16"}, "motion of results");
      }
      if (d == 's') Check(false, {"C12"}, "fields of the stylus state that are not known");
      char e = CompareStylus(out, want, n0);
      // A tie between candidate points may be decided by rounding; a systematic difference shows up without one.
      if (e == 'y') Check(false, {"C13", "C15"}, "pressure and tilt");
      if (e == 'o') Check(false, {"C14", "C13"}, "orientation");
      g.Accepted(in);
    } else if (k < 90) {
      std::vector<Result> pr(static_cast<std::size_t>(N(0, 3)));
      want.clear();
      int wc = r.Predict(want);
      absl::Status st = m.Predict(pr);
      Check(Code(st) == wc, {"C03"}, "status of a prediction");
      if (wc) { Check(pr.empty(), {"C05"}, "a refused prediction is empty"); continue; }
      bool kal = std::holds_alternative<KalmanPredictorParams>(params.prediction_params);
      Check(pr.size() <= static_cast<std::size_t>(params.sampling_params.max_outputs_per_call), {"C07"}, "a prediction has no more results than allowed");
      if (!Small(want) || !Small(pr)) throw vc_native::Discard();
      for (std::size_t j = 1; j < pr.size(); ++j) Check(pr[j].time >= pr[j - 1].time, {"C08"}, "predicted times never decrease");
      char d = Compare(pr, want, 0);
      if (kal) {
        if (d == 'n') {
          bool edge = std::abs(static_cast<double>(pr.size()) - static_cast<double>(want.size())) <= 1;
          if (edge) throw vc_native::Discard();
          Check(false, {"C20", "C21"}, "length of the prediction");
        }
        if (d == 'p' || d == 't') Check(false, {"C20", "C21"}, "motion of the prediction");
      } else if (d == 'n' || d == 'p' || d == 't') {
        Check(false, {"C22"}, "prediction is the end of the stroke");
      }
      if (d == 's') Check(false, {"C12"}, "predicted fields that are not known");
    } else if (k < 93) {
      Check(m.Reset().ok(), {"C02"}, "reset");
      r.Reset();
      g.Idle();
    } else if (k < 95) {
      params = GenParams(f);
      if (Coin(3)) {
        params.sampling_params.min_output_rate = -1;
        Check(!m.Reset(params).ok(), {"C01", "C02"}, "invalid parameters are refused");
        params = *r.p;
      } else {
        Check(m.Reset(params).ok(), {"C01"}, "valid parameters are accepted");
        r.Reset(params);
        g.Idle();
      }
    } else if (k < 98) {
      m.Save(); r.Save();
    } else {
      m.Restore(); r.Restore();
      g.down = r.s.active;
      if (r.s.active) { g.last = r.s.last; g.t = g.last.time.Value(); }
    }
  }
#endif
}

// Two modelers that must behave identically; one of them additionally goes
// through something that must not matter.
extern "C" void h_twins() {
#ifndef VC_SYM
  const char* o = vc_native::only();
  static const char* const kinds[] = {"C02", "C04", "C17", "C18", "C19", "C03"};
  const char* kind = kinds[N(0, 5)];
  if (o) {
    kind = nullptr;
    for (const char* k : kinds) if (!std::strcmp(k, o)) kind = k;
    if (!kind) throw vc_native::Discard();
  }
  auto is = [&](const char* p) { return !std::strcmp(kind, p); };
  Feat f;
  if (is("C18")) f.pred = N(0, 1);
  StrokeModelParams params = GenParams(f);
  StrokeModeler a, b;
  Gen g(Coin(2) ? 0 : N(0, 15));
  std::vector<Result> oa, ob;
  auto both = [&](const Input& in, const char* label) {
    std::vector<Result> ra, rb;
    absl::Status sa = a.Update(in, ra), sb = b.Update(in, rb);
    Check(Code(sa) == Code(sb) && ExactS(ra, rb), {kind}, label);
    return sa.ok();
  };
  auto pred = [&](const char* label) {
    std::vector<Result> ra, rb;
    absl::Status sa = a.Predict(ra), sb = b.Predict(rb);
    Check(Code(sa) == Code(sb) && ExactS(ra, rb), {kind}, label);
  };
  auto stroke = [&](StrokeModeler& m, int n) {   // an unrelated stroke (possibly left open)
    Gen h(Coin(2) ? 0 : N(0, 15));
    std::vector<Result> r;
    for (int i = 0; i < n; ++i) {
      Input in = h.Next(0);
      if (m.Update(in, r).ok()) h.Accepted(in);
      if (Coin(5)) { std::vector<Result> q; (void)m.Predict(q); }
      if (Coin(9)) m.Save();
      if (Coin(12)) { m.Restore(); h.down = false; }
    }
  };
  auto badparams = [&] {
    StrokeModelParams q = GenParams(f);
    switch (N(0, 6)) {
      case 0: q.sampling_params.min_output_rate = -1; break;
      case 1: q.position_modeler_params.spring_mass_constant = 0; break;
      case 2: q.stylus_state_modeler_params.use_stroke_normal_projection = false; q.stylus_state_modeler_params.max_input_samples = 0; break;
      case 3: q.wobble_smoother_params.is_enabled = true; q.wobble_smoother_params.timeout = Duration(-1); break;
      case 4: { KalmanPredictorParams z; z.process_noise = -1; q.prediction_params = z; break; }
      case 5: q.sampling_params.max_outputs_per_call = 0; break;
      default: q.sampling_params.end_of_stroke_max_iterations = -3; break;
    }
    return q;
  };
  bool fresh = false;
  if (is("C19")) {
    // whatever happened before, the stroke that starts now behaves like one of a new modeler
    if (Coin(2)) { (void)a.Reset(GenParams(f)); stroke(a, N(0, 30)); if (Coin(2)) (void)a.Reset(badparams()); }
    bool samep = Coin(2);
    Check(a.Reset(params).ok(), {"C19"}, "reset accepted");
    if (samep) { stroke(a, N(1, 30)); if (Coin(2)) { Check(a.Reset().ok(), {"C19"}, "reset accepted"); } else { Check(a.Reset(params).ok(), {"C19"}, "reset accepted"); } }
    Check(b.Reset(params).ok(), {"C19"}, "reset accepted");
    fresh = true;
    if (Coin(3)) {   // the previous stroke ended with an up event instead
      Gen h(0);
      std::vector<Result> r;
      Input in = h.Next(0);
      if (a.Update(in, r).ok()) {
        h.Accepted(in);
        for (int i = N(0, 20); i > 0; --i) { Input k = h.Next(0); k.event_type = Input::EventType::kMove; if (a.Update(k, r).ok()) h.Accepted(k); if (Coin(8)) a.Save(); if (Coin(8)) a.Restore(); }
        Input k = h.Next(0);
        k.event_type = Input::EventType::kUp;
        if (!a.Update(k, r).ok()) throw vc_native::Discard();
      }
    }
  } else {
    Check(a.Reset(params).ok() && b.Reset(params).ok(), {kind}, "reset accepted");
  }
  (void)fresh;
  int len = N(4, 50);
  bool savedA = false;
  for (int i = 0; i < len; ++i) {
    if (is("C04") && Coin(3)) {
      Input in = g.Next(2);
      std::vector<Result> r(static_cast<std::size_t>(N(0, 2))), r0 = r;
      StrokeModeler probe;   // find out on a copy of the history whether it is refused: use b as the reference afterwards
      (void)probe;
      absl::Status s = a.Update(in, r);
      if (s.ok()) {
        std::vector<Result> rb(r0);
        absl::Status sb = b.Update(in, rb);
        Check(sb.ok() && ExactS(r, rb), {"C04"}, "both accept");
        g.Accepted(in);
      } else {
        Check(ExactS(r, r0), {"C04"}, "a refused update leaves the results alone");
        pred("predictions after a refused update");
      }
      continue;
    }
    if (is("C02") && Coin(5)) {
      Check(!a.Reset(badparams()).ok(), {"C02"}, "invalid parameters are refused");
      pred("predictions after a refused reset");
      if (Coin(3)) { a.Restore(); b.Restore(); g.down = Coin(2); }
    }
    if (is("C18") && Coin(2)) {
      std::vector<Result> p1(2), p2;
      absl::Status s1 = a.Predict(p1), s2 = a.Predict(p2);
      Check(Code(s1) == Code(s2) && ExactS(p1, p2), {"C18"}, "predicting twice gives the same");
    }
    if (is("C17") && Coin(5)) {
      a.Save(); b.Save();
      savedA = true;
      for (int rep = N(1, 3); rep > 0; --rep) {
        Gen h = g;
        std::vector<Result> r;
        for (int n = N(0, 12); n > 0; --n) {
          Input in = h.Next(10);
          if (in.event_type == Input::EventType::kDown) break;   // a new stroke discards the saved state
          if (a.Update(in, r).ok()) h.Accepted(in);
          if (Coin(4)) { std::vector<Result> q; (void)a.Predict(q); }
        }
        a.Restore();
        pred("predictions after restoring");
      }
    }
    if (Coin(6) && !is("C18")) pred("predictions");
    if (Coin(10)) { a.Save(); b.Save(); savedA = true; }
    if (Coin(25) && (savedA || !is("C19"))) {
      a.Restore(); b.Restore();
      if (savedA) g.down = Coin(2);
    }
    if (Coin(40)) { (void)a.Reset(); (void)b.Reset(); g.Idle(); }
    Input in = g.Next(is("C03") ? 4 : 14);
    if (both(in, "results of an update")) g.Accepted(in);
  }
  pred("predictions at the end");
#endif
}
