// Executable statement of what the library documents: an independent model of
// a whole stroke, used to look for failing inputs (never to accept a proof).
#ifndef VC_REF_H_
#define VC_REF_H_
#include "types.h"
#ifndef VC_SYM
namespace ref {
using namespace ink::stroke_model;
inline const double kPiD = 3.14159265358979323846;
inline float C01(float v) { return std::min(std::max(v, 0.f), 1.f); }
inline float Norm01(float a, float b, float v) { return a == b ? (v > a ? 1.f : 0.f) : C01((v - a) / (b - a)); }
inline float L(float a, float b, float t) { return a + (b - a) * C01(t); }
inline Vec2 L(Vec2 a, Vec2 b, float t) { float c = C01(t); return {a.x + c * (b.x - a.x), a.y + c * (b.y - a.y)}; }
inline Time L(Time a, Time b, float t) { return Time(a.Value() + (b.Value() - a.Value()) * static_cast<double>(C01(t))); }
inline float Len(Vec2 v) { return std::hypot(v.x, v.y); }
inline Vec2 Sub(Vec2 a, Vec2 b) { return {a.x - b.x, a.y - b.y}; }
inline float Dist(Vec2 a, Vec2 b) { return Len(Sub(b, a)); }
inline float Dot(Vec2 a, Vec2 b) { return a.x * b.x + a.y * b.y; }
inline float Turn(float a) {
  a = static_cast<float>(std::fmod(static_cast<double>(a), 2 * kPiD));
  if (a < 0) a = static_cast<float>(a + 2 * kPiD);
  if (a > 2 * kPiD) a = static_cast<float>(a - 2 * kPiD);
  return a;
}
inline float Angle(float s, float e, float t) {
  s = Turn(s); e = Turn(e);
  float d = e - s;
  if (d < -kPiD) e = static_cast<float>(e + 2 * kPiD); else if (d > kPiD) e = static_cast<float>(e - 2 * kPiD);
  return Turn(L(s, e, t));
}
inline Result LerpResult(const Result& a, const Result& b, float t) {
  Result r;
  r.position = L(a.position, b.position, t);
  r.velocity = L(a.velocity, b.velocity, t);
  r.acceleration = L(a.acceleration, b.acceleration, t);
  r.time = L(a.time, b.time, t);
  r.pressure = a.pressure < 0 || b.pressure < 0 ? -1 : L(a.pressure, b.pressure, t);
  r.tilt = a.tilt < 0 || b.tilt < 0 ? -1 : L(a.tilt, b.tilt, t);
  r.orientation = a.orientation < 0 || b.orientation < 0 ? -1 : Angle(a.orientation, b.orientation, t);
  return r;
}
inline float Nearest(Vec2 a, Vec2 b, Vec2 p) {
  if (a.x == b.x && a.y == b.y) return 0;
  Vec2 v = Sub(b, a);
  return C01(Dot(Sub(p, a), v) / Dot(v, v));
}
inline TipState Step(TipState s, Vec2 anchor, Time t, const PositionModelerParams& p) {
  float dt = static_cast<float>(t.Value() - s.time.Value());
  s.acceleration = {(anchor.x - s.position.x) / p.spring_mass_constant - p.drag_constant * s.velocity.x,
                    (anchor.y - s.position.y) / p.spring_mass_constant - p.drag_constant * s.velocity.y};
  s.velocity = {s.velocity.x + dt * s.acceleration.x, s.velocity.y + dt * s.acceleration.y};
  s.position = {s.position.x + dt * s.velocity.x, s.position.y + dt * s.velocity.y};
  s.time = t;
  return s;
}
inline void CatchUp(TipState& s, Vec2 anchor, double dt, int iters, float stop, const PositionModelerParams& p, std::vector<TipState>& out) {
  for (int i = 0; i < iters; ++i) {
    TipState c = Step(s, anchor, Time(s.time.Value() + dt), p);
    if (Dist(s.position, c.position) < stop) { s = c; return; }
    if (Nearest(s.position, c.position, anchor) < 1) { dt *= .5; continue; }
    out.push_back(c);
    s = c;
    if (Dist(c.position, anchor) < stop) return;
  }
}

// Kalman filter with a cubic motion model, one coordinate.
struct Axis {
  double x[4] = {0, 0, 0, 0}, P[4][4], n = 0;
  double q, r;
  Axis(double pq = 1, double pr = 1) : q(pq), r(pr) { Clear(); }
  void Clear() { n = 0; for (int i = 0; i < 4; ++i) { x[i] = 0; for (int j = 0; j < 4; ++j) P[i][j] = i == j; } }
  void Observe(double z) {
    if (n++ == 0) { x[0] = z; return; }
    static const double F[4][4] = {{1, 1, .5, 1.0 / 6}, {0, 1, 1, .5}, {0, 0, 1, 1}, {0, 0, 0, 1}};
    static const double G[4] = {1.0 / 6, .5, 1, 1};
    double y[4], A[4][4], B[4][4];
    for (int i = 0; i < 4; ++i) { y[i] = 0; for (int j = 0; j < 4; ++j) y[i] += F[i][j] * x[j]; }
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { A[i][j] = 0; for (int k = 0; k < 4; ++k) A[i][j] += F[i][k] * P[k][j]; }
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { double s = 0; for (int k = 0; k < 4; ++k) s += A[i][k] * F[j][k]; B[i][j] = s + G[i] * G[j] * q; }
    double S = B[0][0] + r, K[4];
    for (int i = 0; i < 4; ++i) K[i] = B[0][i] / S;
    double e = z - y[0];
    for (int i = 0; i < 4; ++i) x[i] = y[i] + K[i] * e;
    double M[4][4], T[4][4];
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) M[i][j] = (i == j) - (j == 0 ? K[i] : 0);
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { T[i][j] = 0; for (int k = 0; k < 4; ++k) T[i][j] += M[i][k] * B[k][j]; }
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { double s = 0; for (int k = 0; k < 4; ++k) s += T[i][k] * M[j][k]; P[i][j] = s + K[i] * K[j] * r; }
  }
};
struct Est { Vec2 p, v, a, j; };
inline Est Cubic(const Est& s, float dt) {
  float d2 = dt * dt, d3 = d2 * dt;
  auto f = [&](float p, float v, float a, float j, float& op, float& ov, float& oa) {
    op = p + v * dt + a * d2 / 2.f + j * d3 / 6.f;
    ov = v + a * dt + j * d2 / 2.f;
    oa = a + j * dt;
  };
  Est e;
  f(s.p.x, s.v.x, s.a.x, s.j.x, e.p.x, e.v.x, e.a.x);
  f(s.p.y, s.v.y, s.a.y, s.j.y, e.p.y, e.v.y, e.a.y);
  e.j = s.j;
  return e;
}

struct Stroke {
  bool active = false;
  Input last;
  Vec2 corrected{0, 0};
  // smoothing window
  struct W { Vec2 p, wp; float d; double dur; Time t; };
  std::deque<W> wob;
  Vec2 wsum{0, 0};
  float dsum = 0, tsum = 0;
  TipState tip;
  std::deque<Result> raw;
  bool unk[3] = {false, false, false};
  std::deque<std::pair<float, Time>> speed;
  // predictors
  Axis ax, ay;
  std::deque<Time> times;
  std::optional<Vec2> seen;
};

struct Model {
  std::optional<StrokeModelParams> p;
  Stroke s, saved;
  bool has_saved = false;

  int Reset(const StrokeModelParams& np) { p = np; s = Stroke(); has_saved = false; NewPredictor(); return 0; }
  int Reset() { if (!p) return 9; Stroke k; s = k; NewPredictor(); has_saved = false; return 0; }
  void NewPredictor() {
    if (auto* k = std::get_if<KalmanPredictorParams>(&p->prediction_params)) s.ax = s.ay = Axis(k->process_noise, k->measurement_noise);
    s.times.clear(); s.seen.reset();
  }
  void Save() { saved = s; has_saved = true; }
  void Restore() { if (has_saved) s = saved; }

  Vec2 Smooth(Vec2 q, Time t) {
    auto& w = p->wobble_smoother_params;
    if (!w.is_enabled) return q;
    double dur = t.Value() - s.wob.back().t.Value();
    float fd = static_cast<float>(dur);
    Stroke::W n{q, {fd * q.x, fd * q.y}, Dist(q, s.wob.back().p), dur, t};
    s.wob.push_back(n);
    s.wsum = {s.wsum.x + n.wp.x, s.wsum.y + n.wp.y};
    s.dsum += n.d;
    s.tsum += dur;
    while (s.wob.front().t.Value() < t.Value() - w.timeout.Value()) {
      auto& f = s.wob.front();
      s.wsum = {s.wsum.x - f.wp.x, s.wsum.y - f.wp.y};
      s.dsum -= f.d;
      s.tsum -= f.dur;
      s.wob.pop_front();
    }
    if (s.tsum == 0) return q;
    Vec2 avg{s.wsum.x / s.tsum, s.wsum.y / s.tsum};
    return L(avg, q, Norm01(w.speed_floor, w.speed_ceiling, s.dsum / s.tsum));
  }
  void Track(Vec2 q, Time t, const Input& i) {
    auto& sp = p->stylus_state_modeler_params;
    auto unknown = [](float v) { return v < 0 || std::isnan(v); };
    if (unknown(i.pressure)) s.unk[0] = true;
    if (unknown(i.tilt)) s.unk[1] = true;
    if (unknown(i.orientation)) s.unk[2] = true;
    if (!sp.use_stroke_normal_projection && s.unk[0] && s.unk[1] && s.unk[2]) { s.raw.clear(); return; }
    Result r;
    r.position = q;
    r.velocity = r.acceleration = {0, 0};
    if (!s.raw.empty() && t.Value() != s.raw.back().time.Value()) {
      auto& b = s.raw.back();
      float dt = static_cast<float>(t.Value() - b.time.Value());
      r.velocity = {(q.x - b.position.x) / dt, (q.y - b.position.y) / dt};
      r.acceleration = {(r.velocity.x - b.velocity.x) / dt, (r.velocity.y - b.velocity.y) / dt};
    }
    r.time = t;
    r.pressure = i.pressure; r.tilt = i.tilt; r.orientation = i.orientation;
    s.raw.push_back(r);
    if (sp.use_stroke_normal_projection) {
      while (s.raw.size() > static_cast<std::size_t>(sp.min_input_samples) &&
             s.raw.back().time.Value() - s.raw[1].time.Value() > sp.min_sample_duration.Value()) s.raw.pop_front();
    } else {
      while (s.raw.size() > static_cast<std::size_t>(sp.max_input_samples)) s.raw.pop_front();
    }
  }
  static std::optional<Vec2> Normal(const TipState& t, Time prev) {
    float v = Len(t.velocity), a = Len(t.acceleration);
    auto left = [](Vec2 u) { return Vec2{-u.y, u.x}; };
    if (v == 0 && a == 0) return std::nullopt;
    if (v == 0) return left(t.acceleration);
    if (a == 0) return left(t.velocity);
    if (std::fabs(Dot(t.velocity, t.acceleration)) > 0.99996192f * v * a) return left(t.velocity);
    float dt = static_cast<float>(t.time.Value() - prev.Value());
    Vec2 n{t.velocity.x + dt * t.acceleration.x, t.velocity.y + dt * t.acceleration.y};
    float nl = Len(n);
    return left({t.velocity.x / v + n.x / nl, t.velocity.y / v + n.y / nl});
  }
  static Result LookUp(const Stroke& s, const StylusStateModelerParams& sp, const TipState& t, std::optional<Vec2> nrm) {
    Result none;
    none.pressure = none.tilt = none.orientation = -1;
    none.position = none.velocity = none.acceleration = {0, 0};
    none.time = Time(0);
    if (s.raw.empty()) return none;
    int seg = -1;
    float at = 0;
    float inf = std::numeric_limits<float>::infinity();
    if (sp.use_stroke_normal_projection && nrm) {
      int sg[2] = {-1, -1};
      float best[2] = {inf, inf}, r[2] = {0, 0};
      for (std::size_t i = 0; i + 1 < s.raw.size(); ++i) {
        Vec2 a = s.raw[i].position, b = s.raw[i + 1].position, v = Sub(b, a);
        float det = nrm->x * v.y - nrm->y * v.x;
        if (det == 0) continue;
        Vec2 w = Sub(a, t.position);
        float u = (w.x * nrm->y - w.y * nrm->x) / det;
        if (u < 0 || u > 1) continue;
        Vec2 q = L(a, b, u);
        float d = Dist(t.position, q);
        int side = Dot(Sub(q, t.position), *nrm) < 0 ? 1 : 0;
        if (d < best[side]) { best[side] = d; sg[side] = static_cast<int>(i); r[side] = u; }
      }
      int side = sg[0] >= 0 && sg[1] >= 0 ? (Dot(*nrm, t.acceleration) > 0 ? 1 : 0) : (sg[1] >= 0 ? 1 : 0);
      seg = sg[side]; at = r[side];
    } else {
      float best = inf;
      for (std::size_t i = 0; i + 1 < s.raw.size(); ++i) {
        Vec2 a = s.raw[i].position, b = s.raw[i + 1].position;
        float u = Nearest(a, b, t.position);
        float d = Dist(t.position, L(a, b, u));
        if (d <= best) { best = d; seg = static_cast<int>(i); at = u; }
      }
    }
    Result r = seg >= 0 ? LerpResult(s.raw[seg], s.raw[seg + 1], at)
                        : (Dist(s.raw.front().position, t.position) < Dist(s.raw.back().position, t.position) ? s.raw.front() : s.raw.back());
    r.time = t.time;
    if (s.unk[0]) r.pressure = -1;
    if (s.unk[1]) r.tilt = -1;
    if (s.unk[2]) r.orientation = -1;
    return r;
  }
  static float Strength(const Stroke& s, const PositionModelerParams::LoopContractionMitigationParameters& lp) {
    if (s.speed.empty() || !lp.is_enabled) return 1;
    float sum = 0;
    for (auto& x : s.speed) sum += x.first;
    float avg = sum / s.speed.size();
    float d = lp.speed_upper_bound - lp.speed_lower_bound;
    float u = d == 0 ? 0 : C01((avg - lp.speed_lower_bound) / d);
    return L(lp.interpolation_strength_at_speed_lower_bound, lp.interpolation_strength_at_speed_upper_bound, u);
  }
  // turns modelled tip states into results
  void Emit(Stroke& k, const std::vector<TipState>& tips, Time prev, std::vector<Result>& out) const {
    auto& lp = p->position_modeler_params.loop_contraction_mitigation_params;
    float f = Strength(k, lp);
    for (auto& t : tips) {
      Result proj = LookUp(k, p->stylus_state_modeler_params, t, Normal(t, prev));
      Result m;
      m.position = t.position; m.velocity = t.velocity; m.acceleration = t.acceleration; m.time = t.time;
      m.pressure = proj.pressure; m.tilt = proj.tilt; m.orientation = proj.orientation;
      out.push_back(LerpResult(proj, m, f));
      if (lp.is_enabled) {
        k.speed.push_back({Len(out.back().velocity), t.time});
        while (k.speed.back().second.Value() - k.speed.front().second.Value() > lp.min_speed_sampling_window.Value() &&
               static_cast<int>(k.speed.size()) > lp.min_discrete_speed_samples) k.speed.pop_front();
        f = Strength(k, lp);
      } else {
        f = 1;
      }
      prev = t.time;
    }
  }
  // number of results for an input, or -1 if the input has to be refused
  double Steps(const Input& i) const {
    auto& sp = p->sampling_params;
    float dt = static_cast<float>(i.time.Value() - s.last.time.Value());
    double n = std::ceil(static_cast<float>(dt * static_cast<double>(sp.min_output_rate)));
    n = std::ceil(dt * sp.min_output_rate);
    Vec2 v0 = s.tip.velocity;
    float k = p->position_modeler_params.spring_mass_constant;
    Vec2 v1{v0.x + (i.position.x - s.tip.position.x) / k * dt, v0.y + (i.position.y - s.tip.position.y) / k * dt};
    if (!std::isfinite(v0.x) || !std::isfinite(v0.y) || !std::isfinite(v1.x) || !std::isfinite(v1.y)) return -1;
    if (sp.max_estimated_angle_to_traverse_per_input > 0) {
      absl::StatusOr<float> a = v0.AbsoluteAngleTo(v1);
      if (!a.ok()) return -1;
      n = std::max<double>(n, std::ceil(*a / sp.max_estimated_angle_to_traverse_per_input));
    }
    return n > sp.max_outputs_per_call ? -1 : n;
  }
  static int Bad(const Input& i) {
    int e = static_cast<int>(i.event_type);
    return (e < 0 || e > 2 || !std::isfinite(i.position.x) || !std::isfinite(i.position.y) || !std::isfinite(i.time.Value())) ? 3 : 0;
  }
  int Update(const Input& i, std::vector<Result>& out) {
    if (!p) return 9;
    if (Bad(i)) return 3;
    if (s.active) {
      if (s.last.event_type == i.event_type && s.last.position.x == i.position.x && s.last.position.y == i.position.y && s.last.time.Value() == i.time.Value() &&
          s.last.pressure == i.pressure && s.last.tilt == i.tilt && s.last.orientation == i.orientation) return 3;
      if (i.time.Value() < s.last.time.Value()) return 3;
    }
    auto& pp = p->position_modeler_params;
    if (i.event_type == Input::EventType::kDown) {
      if (s.active) return 9;
      if (has_saved && saved.active) has_saved = false;
      Stroke n;
      n.ax = s.ax; n.ay = s.ay;
      n.ax.Clear(); n.ay.Clear();
      s = n;
      s.active = true;
      s.last = i;
      s.corrected = i.position;
      s.wob.push_back({i.position, {0, 0}, 0, 0, i.time});
      s.tip.position = i.position; s.tip.velocity = s.tip.acceleration = {0, 0}; s.tip.time = i.time;
      Track(i.position, i.time, i);
      Feed(i.position, i.time);
      Result r;
      r.position = i.position; r.velocity = r.acceleration = {0, 0}; r.time = i.time;
      r.pressure = i.pressure; r.tilt = i.tilt; r.orientation = i.orientation;
      out.push_back(r);
      return 0;
    }
    if (!s.active) return 9;
    double n = Steps(i);
    if (n < 0) return 3;
    bool up = i.event_type == Input::EventType::kUp;
    Vec2 q = up ? i.position : Smooth(i.position, i.time);
    Track(q, i.time, i);
    std::vector<TipState> tips;
    for (int k = 1; k <= n; ++k) {
      float f = static_cast<float>(k) / static_cast<float>(static_cast<int>(n));
      s.tip = Step(s.tip, L(s.corrected, q, f), L(s.last.time, i.time, f), pp);
      tips.push_back(s.tip);
    }
    Time prev = i.time;
    if (up) {
      prev = s.last.time;
      auto& sp = p->sampling_params;
      CatchUp(s.tip, i.position, 1. / sp.min_output_rate, std::min(sp.end_of_stroke_max_iterations, sp.max_outputs_per_call - static_cast<int>(n)),
              sp.end_of_stroke_stopping_distance, pp, tips);
      if (tips.empty()) tips.push_back(s.tip);
    } else {
      Feed(q, i.time);
      s.last = i;
      s.corrected = q;
    }
    Emit(s, tips, prev, out);
    if (up) s.active = false;
    return 0;
  }
  void Feed(Vec2 q, Time t) {
    s.seen = q;
    if (auto* k = std::get_if<KalmanPredictorParams>(&p->prediction_params)) {
      s.times.push_back(t);
      if (s.times.size() > static_cast<std::size_t>(k->max_time_samples)) s.times.pop_front();
      s.ax.Observe(q.x);
      s.ay.Observe(q.y);
    }
  }
  int Predict(std::vector<Result>& out) const {
    out.clear();
    if (!p) return 9;
    if (std::holds_alternative<DisabledPredictorParams>(p->prediction_params)) return 9;
    if (!s.active) return 9;
    std::vector<TipState> tips;
    auto& sp = p->sampling_params;
    if (auto* k = std::get_if<KalmanPredictorParams>(&p->prediction_params)) {
      if (s.ax.n >= k->min_stable_iteration) Kalman(*k, tips);
    } else {
      TipState t = s.tip;
      CatchUp(t, *s.seen, 1. / sp.min_output_rate, std::min(sp.end_of_stroke_max_iterations, sp.max_outputs_per_call), sp.end_of_stroke_stopping_distance,
              p->position_modeler_params, tips);
    }
    Stroke copy = s;
    Emit(copy, tips, s.last.time, out);
    return 0;
  }
  void Kalman(const KalmanPredictorParams& k, std::vector<TipState>& out) const {
    auto& sp = p->sampling_params;
    Est e;
    auto f = [](double v) { return static_cast<float>(v); };
    float dt = static_cast<float>(s.times.back().Value() - s.times.front().Value()) / s.times.size();
    float d2 = dt * dt, d3 = d2 * dt;
    e.p = {f(s.ax.x[0]), f(s.ay.x[0])};
    e.v = {f(s.ax.x[1]) / dt, f(s.ay.x[1]) / dt};
    e.a = {k.acceleration_weight * (f(s.ax.x[2]) / d2), k.acceleration_weight * (f(s.ay.x[2]) / d2)};
    e.j = {k.jerk_weight * (f(s.ax.x[3]) / d3), k.jerk_weight * (f(s.ay.x[3]) / d3)};
    const TipState& t = s.tip;
    double sdt = 1. / sp.min_output_rate;
    float dist = std::min(Dist(t.position, e.p), std::numeric_limits<float>::max());
    float vel = std::max(std::max(Len(t.velocity), Len(e.v)), k.min_catchup_velocity);
    double target = static_cast<double>(dist / vel);
    double want = std::ceil(static_cast<float>(target / sdt));
    if (!(want >= 1)) want = 1;
    int n = static_cast<int>(std::min<double>(want, sp.max_outputs_per_call));
    double dur = n * sdt;
    float D = static_cast<float>(dur);
    for (int i = 1; i <= n; ++i) {
      float u = static_cast<float>(i) / static_cast<float>(n);
      TipState o;
      auto c = [&](float p0, float v0, float p1, float v1, float& op, float& ov, float& oa) {
        float a = 2.f * p0 - 2.f * p1 + D * (v0 + v1);
        float b = -3.f * p0 + 3.f * p1 - D * (2.f * v0 + v1);
        float cc = D * v0;
        float u2 = u * u, u3 = u2 * u;
        op = u3 * a + u2 * b + u * cc + p0;
        ov = (u2 * (3.f * a) + u * (2.f * b) + cc) / D;
        oa = (u * (6.f * a) + 2.f * b) / (D * D);
      };
      c(t.position.x, t.velocity.x, e.p.x, e.v.x, o.position.x, o.velocity.x, o.acceleration.x);
      c(t.position.y, t.velocity.y, e.p.y, e.v.y, o.position.y, o.velocity.y, o.acceleration.y);
      o.time = Time(t.time.Value() + dur * static_cast<double>(u));
      out.push_back(o);
    }
    auto& cp = k.confidence_params;
    float full = static_cast<float>(k.prediction_interval.Value() * sp.min_output_rate);
    float enough = std::min(1.f, static_cast<float>(s.ax.n) / cp.desired_number_of_samples);
    float err = 1.f - Norm01(0.f, cp.max_estimation_distance, Dist(*s.seen, e.p));
    float iv = static_cast<float>(k.prediction_interval.Value());
    Est end = Cubic(e, iv);
    float fast = Norm01(cp.min_travel_speed, cp.max_travel_speed, Dist(e.p, end.p) / iv);
    float dev = Dist(end.p, {e.p.x + iv * e.v.x, e.p.y + iv * e.v.y});
    float linear = L(cp.baseline_linearity_confidence, 1.f, 1.f - Norm01(0.f, cp.max_linear_deviation, dev));
    double pts = std::ceil(full * (enough * err * fast * linear));
    if (!(pts > 0)) pts = 0;
    int m = static_cast<int>(std::min<double>(pts, sp.max_outputs_per_call - static_cast<int>(out.size())));
    Est c = e;
    double now = out.back().time.Value();
    for (int i = 0; i < m; ++i) {
      c = Cubic(c, static_cast<float>(sdt));
      now += sdt;
      TipState o;
      o.position = c.p; o.velocity = c.v; o.acceleration = c.a; o.time = Time(now);
      out.push_back(o);
    }
  }
};
}  // namespace ref
#endif
#endif
