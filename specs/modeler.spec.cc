// C02-C08, C11-C13, C16-C19, C21, C22: the stroke modeler itself, in an
// arbitrary state.  The parts it is made of are represented by their
// contracts, which the other harnesses establish on their code.
#include "types.h"
#include "lib.inc"
using namespace ink::stroke_model;
using namespace vc;

namespace ink::stroke_model {
using namespace vc;
#ifdef VC_SYM
using WSample = WobbleSmoother::Sample;
using LSample = LoopContractionMitigationModeler::SpeedSample;
inline void Any(WSample& s) { Any(s.position); Any(s.weighted_position); Any(s.distance); Any(s.duration); Any(s.time); }
inline void Any(LSample& s) { Any(s.speed); Any(s.time); }
inline bool Same(const LSample& a, const LSample& b) { return And(Same(a.speed, b.speed), Same(a.time, b.time)); }
template <class T> inline void AnyOpt(std::optional<T>& o, bool has) {
  if (has) o = Arb<T>();
  else o.reset();
}
// all of the state that later behaviour depends on
inline void Havoc(WobbleSmoother::State& s) { AnySeq(s.samples); Any(s.weighted_position_sum); Any(s.distance_sum); Any(s.duration_sum); }
inline void Havoc(StylusStateModeler::ModelerState& s) {
  Any(s.received_unknown_pressure); Any(s.received_unknown_tilt); Any(s.received_unknown_orientation);
  AnySeq(s.raw_input_and_stylus_states);
}
inline void Havoc(Vec4& v) { for (int i = 0; i < 4; ++i) Any(v[i]); }
inline void Havoc(Matrix4& m) { for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) Any(m.At(i, j)); }
inline void Havoc(AxisPredictor& a) {
  Havoc(a.kalman_filter_.state_estimation_); Havoc(a.kalman_filter_.error_covariance_matrix_); Any(a.kalman_filter_.iter_num_);
}
// a predictor in an arbitrary state reached with the given parameters
inline void Havoc(InputPredictor* p, int kind, bool has) {
  if (kind == 1) {
    auto* q = static_cast<KalmanPredictor*>(p);
    AnyOpt(q->last_position_received_, has);
    AnySeq(q->sample_times_);
    Havoc(q->x_predictor_); Havoc(q->y_predictor_);
  } else if (kind == 2) {
    AnyOpt(static_cast<StrokeEndPredictor*>(p)->last_position_, has);
  }
}
inline std::unique_ptr<InputPredictor> NewPredictor(const StrokeModelParams& p, int kind) {
  if (kind == 1) return std::make_unique<KalmanPredictor>(std::get<KalmanPredictorParams>(p.prediction_params), p.sampling_params);
  if (kind == 2) return std::make_unique<StrokeEndPredictor>(p.position_modeler_params, p.sampling_params);
  return nullptr;
}
inline StrokeModelParams ArbParams(int kind) {
  StrokeModelParams p;
  Any(p.wobble_smoother_params); Any(p.position_modeler_params); Any(p.sampling_params); Any(p.stylus_state_modeler_params);
  if (kind == 1) p.prediction_params = Arb<KalmanPredictorParams>();
  else if (kind == 2) p.prediction_params = StrokeEndPredictorParams{};
  else p.prediction_params = DisabledPredictorParams{};
  return p;
}
inline void HavocLive(StrokeModeler& m, int kind, bool stroke, bool has) {
  Havoc(m.wobble_smoother_.state_);
  Any(m.position_modeler_.state_);
  Havoc(m.stylus_state_modeler_.state_);
  AnySeq(m.loop_contraction_mitigation_modeler_.speed_samples_);
  if (stroke) {
    m.last_input_ = StrokeModeler::InputAndCorrectedPosition{Arb<Input>(), Arb<Vec2>()};
    // only valid inputs are kept
    const Input& l = m.last_input_->input;
    Assume(And(Fin(l.position.x), Fin(l.position.y), Fin(l.time.Value())));
  } else {
    m.last_input_.reset();
  }
  Havoc(m.predictor_.get(), kind, has);
}
inline void HavocSaved(StrokeModeler& m, bool stroke) {
  Havoc(m.wobble_smoother_.saved_state_);
  Any(m.wobble_smoother_.save_active_);
  AnyOpt(m.position_modeler_.saved_state_, stroke);
  Havoc(m.stylus_state_modeler_.saved_state_);
  Any(m.stylus_state_modeler_.save_active_);
  AnySeq(m.loop_contraction_mitigation_modeler_.saved_speed_samples_);
  Any(m.loop_contraction_mitigation_modeler_.save_active_);
  if (stroke) m.saved_last_input_ = StrokeModeler::InputAndCorrectedPosition{Arb<Input>(), Arb<Vec2>()};
  else m.saved_last_input_.reset();
  Any(m.save_active_);
}
// An arbitrary state: any parameters, in a stroke or not, anything saved.
inline void ArbModeler(StrokeModeler& m, int kind, bool stroke, bool saved, bool savedstroke) {
  m.stroke_model_params_ = ArbParams(kind);
  m.predictor_ = NewPredictor(*m.stroke_model_params_, kind);
  HavocLive(m, kind, stroke, stroke);
  Any(m.wobble_smoother_.params_);
  Any(m.position_modeler_.params_);
  Any(m.stylus_state_modeler_.params_);
  Any(m.loop_contraction_mitigation_modeler_.params_);
  HavocSaved(m, savedstroke);
  if (saved) {
    m.saved_predictor_ = NewPredictor(ArbParams(kind), kind);
    Havoc(m.saved_predictor_.get(), kind, true);
  }
  AnySeq(m.tip_state_buffer_);
}
struct Seen {
  StrokeModeler* m;
  std::vector<Result>* results;
  std::uint64_t base, j;
  const Input* in;
  StrokeModeler::InputAndCorrectedPosition last;
  TipState tip0;
  Vec2 corrected;
  bool refused;        // too many steps
  Vec2 moved;          // corrected position
  int n, e;            // steps between the inputs, states at the end of the stroke
  int max;             // allowed at the end of the stroke
  int smoothed, tracked, stepped, ended, updated, constructed;   // calls so far
  bool predicting, since_last;
  const LoopContractionMitigationModeler* loop;
  Time prev;
  Fun<Result>* q;      // values at the projection
  Fun<float>* s;       // strength of loop mitigation
  Fun<Result>* w;      // wanted results
  Fun<Result>* r;      // results
  Fun<double>* before; // times of the tip states, after that of the last input
  std::vector<Result> old;
};
inline Seen* g_seen;
inline std::uint64_t At() { return g_seen->results->size() - g_seen->base; }

absl::StatusOr<int> NumberOfSteps(const TipState& t, const Input& a, const Input& b, const SamplingParams& sp, const PositionModelerParams& pp) {
  Seen& c = *g_seen;
  VC_ASSERT("C07", "steps: from the current tip", Same(t, c.tip0));
  VC_ASSERT("C07", "steps: since the last input", Same(a, c.last.input));
  VC_ASSERT("C07", "steps: to the new input", Same(b, *c.in));
  VC_ASSERT("C07", "steps: with the accepted parameters", And(&sp == &c.m->stroke_model_params_->sampling_params, &pp == &c.m->stroke_model_params_->position_modeler_params));
  c.refused = Arb<bool>();
  if (c.refused) return absl::InvalidArgumentError("too many");
  c.n = Arb<int>();
  Assume(And(c.n >= 0, c.n <= sp.max_outputs_per_call));
  return c.n;
}
Vec2 Smooth(WobbleSmoother* w, Vec2 p, Time t) {
  Seen& c = *g_seen;
  VC_ASSERT("C11", "only moves are smoothed", c.in->event_type == Input::EventType::kMove);
  VC_ASSERT("C11", "the raw input is smoothed", And(w == &c.m->wobble_smoother_, Same(p, c.in->position), Same(t, c.in->time)));
  c.smoothed += 1;
  Havoc(w->state_);
  c.moved = c.corrected = Arb<Vec2>();
  return c.corrected;
}
void StylusUpdate(StylusStateModeler* s, Vec2 p, Time t, const StylusState& st) {
  Seen& c = *g_seen;
  VC_ASSERT("C13", "the stylus values are kept with the position used for the tip", And(s == &c.m->stylus_state_modeler_, Same(p, c.corrected), Same(t, c.in->time)));
  VC_ASSERT("C12", "the stylus values of the input are tracked", And(Same(st.pressure, c.in->pressure), Same(st.tilt, c.in->tilt), Same(st.orientation, c.in->orientation)));
  VC_ASSERT("C12", "every input is tracked once, before its results", And(c.tracked == 0, At() == 0));
  c.tracked += 1;
  Havoc(s->state_);
}
using Out = std::back_insert_iterator<std::vector<TipState>>;
void Path(PositionModeler* p, Vec2 a, Time ta, Vec2 b, Time tb, int n, Out out) {
  Seen& c = *g_seen;
  VC_ASSERT("C09", "moves: from the last corrected input", And(Same(a, c.last.corrected_position), Same(ta, c.last.input.time)));
  VC_ASSERT("C09", "moves: to the corrected input", And(Same(b, c.corrected), Same(tb, c.in->time)));
  VC_ASSERT("C09", "moves: from the current tip", And(p == &c.m->position_modeler_, Same(p->CurrentState(), c.tip0)));
  VC_ASSERT("C07", "moves: with the number of steps", n == c.n);
  c.stepped += 1;
  VC_ASSERT("C09", "moves: into an empty list", c.m->tip_state_buffer_.empty());
  AnySeq(c.m->tip_state_buffer_);
  Assume(c.m->tip_state_buffer_.size() == static_cast<std::uint64_t>(n));
  Any(p->state_);
  c.tip0 = p->state_;
}
void EndOfStroke(PositionModeler* p, Vec2 a, Duration dt, int max, float stop, Out out) {
  Seen& c = *g_seen;
  auto& sp = c.m->stroke_model_params_->sampling_params;
  auto& b = c.m->tip_state_buffer_;
  VC_ASSERT("C10", "end: towards the final input", Same(a, c.in->position));
  VC_ASSERT("C10", "end: by the output interval", Same(dt.Value(), 1. / sp.min_output_rate));
  VC_ASSERT("C10", "end: until the stopping distance", Same(stop, sp.end_of_stroke_stopping_distance));
  VC_ASSERT("C10", "end: from the tip after the last step", And(p == &c.m->position_modeler_, Same(p->CurrentState(), c.tip0)));
  VC_ASSERT("C07", "end: as many iterations as allowed and as the limit leaves",
            max == (sp.end_of_stroke_max_iterations < sp.max_outputs_per_call - c.n ? sp.end_of_stroke_max_iterations : sp.max_outputs_per_call - c.n));
  VC_ASSERT("C10", "end: after the last step", b.size() == static_cast<std::uint64_t>(c.n));
  c.ended += 1;
  c.e = Arb<int>();
  Assume(And(c.e >= 0, Or(c.e <= max, c.e == 0)));
  AnySeq(b);
  Assume(b.size() == static_cast<std::uint64_t>(c.n) + static_cast<std::uint64_t>(c.e));
  Any(p->state_);
  c.tip0 = p->state_;
}
std::optional<Vec2> Normal(const TipState& t, Time prev) {
  Seen& c = *g_seen;
  std::uint64_t k = At();
  VC_ASSERT("C13", "normal: at the tip state", And(k < c.m->tip_state_buffer_.size(), Same(t, c.m->tip_state_buffer_[k])));
  VC_ASSERT("C13", "normal: since the state before or the last input", Or(And(k == 0, !c.since_last), Same(prev.Value(), c.before->at(k))));
  std::optional<Vec2> r;
  Any(c.corrected);   // from here on the normal
  if (Arb<bool>()) r = c.corrected;
  return r;
}
Result Query(const StylusStateModeler* s, const TipState& t, std::optional<Vec2> normal) {
  Seen& c = *g_seen;
  std::uint64_t k = At();
  VC_ASSERT("C13", "stylus values: of the current inputs", s == &c.m->stylus_state_modeler_);
  VC_ASSERT("C13", "stylus values: at the tip state", And(k < c.m->tip_state_buffer_.size(), Same(t, c.m->tip_state_buffer_[k])));
  if (normal.has_value()) VC_ASSERT("C13", "stylus values: along its normal", Same(*normal, c.corrected));
  Result r = c.q->at(k);
  auto& st = s->state_;
  r.time = t.time;
  Assume(And(Implies(st.received_unknown_pressure, r.pressure == -1), Implies(st.received_unknown_tilt, r.tilt == -1), Implies(st.received_unknown_orientation, r.orientation == -1)));
  Assume(And(Or(st.received_unknown_pressure, !(r.pressure < 0)), Or(st.received_unknown_tilt, !(r.tilt < 0)), Or(st.received_unknown_orientation, !(r.orientation < 0))));
  c.q->Def(k, r);
  return r;
}
float Strength(LoopContractionMitigationModeler* l) {
  Seen& c = *g_seen;
  c.loop = l;
  VC_ASSERT("C16", "strength: of the modeler", Or(c.predicting, l == &c.m->loop_contraction_mitigation_modeler_));
  VC_ASSERT("C16", "strength: of the current speeds", SameSeq(l->speed_samples_, c.m->loop_contraction_mitigation_modeler_.speed_samples_));
  VC_ASSERT("C16", "strength: before the first result", At() == 0);
  return c.s->at(0);
}
float Speed(LoopContractionMitigationModeler* l, Vec2 v, Time t) {
  Seen& c = *g_seen;
  std::uint64_t k = At();
  VC_ASSERT("C16", "speeds: of the same modeler", l == c.loop);
  VC_ASSERT("C16", "speeds: of the result just added", And(k > 0, k <= c.m->tip_state_buffer_.size(), Same(v, c.results->back().velocity)));
  VC_ASSERT("C16", "speeds: at the time of the tip", Same(t, c.m->tip_state_buffer_[k - 1].time));
  AnySeq(l->speed_samples_);
  return c.s->at(k);
}
void KalmanUpdate(KalmanPredictor* p, Vec2 pos, Time t) {
  Seen& c = *g_seen;
  VC_ASSERT("C21", "the estimate follows the corrected inputs", And(p == c.m->predictor_.get(), Same(pos, c.corrected), Same(t, c.in->time)));
  c.updated += 1;
  Havoc(p, 1, true);
}
void EndUpdate(StrokeEndPredictor* p, Vec2 pos, Time t) {
  Seen& c = *g_seen;
  VC_ASSERT("C22", "the prediction is towards the corrected input", And(p == c.m->predictor_.get(), Same(pos, c.corrected)));
  c.updated += 1;
  Havoc(p, 2, true);
}
template <int K, class P> void Construct(const P* p, const TipState& t, std::vector<TipState>& out) {
  Seen& c = *g_seen;
  VC_ASSERT("C22", "predictions: from the current tip", Same(t, c.tip0));
  VC_ASSERT("C18", "predictions: into the buffer", And(p == c.m->predictor_.get(), &out == &c.m->tip_state_buffer_));
  c.constructed += 1;
  AnySeq(out);
  Assume(out.size() <= static_cast<std::uint64_t>(c.m->stroke_model_params_->sampling_params.max_outputs_per_call));
}
inline float RefLerp(float a, float b, float f) { return a + (b - a) * std::clamp(f, 0.f, 1.f); }
inline Vec2 RefLerp(Vec2 a, Vec2 b, float f) { float c = std::clamp(f, 0.f, 1.f); return {a.x + c * (b.x - a.x), a.y + c * (b.y - a.y)}; }
// What interpolating between values that agree on time and stylus does.
inline bool KeepsTime(Time a, float f, Time r) { return Or(!Fin(a.Value()), f != f, r.Value() == a.Value()); }
inline bool KeepsValue(float a, float f, float r) {
  return And(Or(!(a < 0), r == -1), Or(a < 0, !(r < 0)), Or(a < 0, !Fin(a), f != f, r == a));
}
inline bool KeepsAngle(float a, float f, float r) { return And(Or(!(a < 0), r == -1), Or(a < 0, r != r, And(r >= 0, r < 2 * 3.14159265358979323846))); }
Result Interpolated(const Result& a, const Result& b, float f) {
  Seen& c = *g_seen;
  std::uint64_t k = At();
  VC_ASSERT("C13", "results: projection and tip have the same stylus values", And(Same(a.pressure, b.pressure), Same(a.tilt, b.tilt), Same(a.orientation, b.orientation)));
  VC_ASSERT("C08", "results: projection and tip have the same time", Same(a.time, b.time));
  Result r = c.r->at(k);
  r.position = RefLerp(a.position, b.position, f);
  r.velocity = RefLerp(a.velocity, b.velocity, f);
  r.acceleration = RefLerp(a.acceleration, b.acceleration, f);
  Assume(And(KeepsTime(a.time, f, r.time), KeepsValue(a.pressure, f, r.pressure), KeepsValue(a.tilt, f, r.tilt), KeepsAngle(a.orientation, f, r.orientation)));
  return r;
}
// the blend of projection and tip for the k-th tip state
inline Result Blend(Seen& c, std::uint64_t k) {
  Result q = c.q->at(k), r = q;
  TipState t = c.m->tip_state_buffer_[k];
  float f = c.s->at(k);
  r.position = RefLerp(q.position, t.position, f);
  r.velocity = RefLerp(q.velocity, t.velocity, f);
  r.acceleration = RefLerp(q.acceleration, t.acceleration, f);
  return r;
}
inline bool Flagged(bool missing, float x) { return And(Or(!missing, x == -1), Or(missing, !(x < 0))); }
inline void ResultLoop(Seen& c, std::uint64_t k) {
  std::uint64_t n = c.m->tip_state_buffer_.size();
  Inv("size", And(c.results->size() == c.base + k, k <= n));
  if (c.j < c.base) Inv("earlier results", Same((*c.results)[c.j], c.old[c.j]));
  if (k < n) {
    c.w->Def(k, Blend(c, k));
    c.before->Def(k + 1, c.m->tip_state_buffer_[k].time.Value());
  }
  if (c.j < k) {
    Result x = (*c.results)[c.base + c.j], w = c.w->at(c.j), y = c.q->at(c.j);
    float f = c.s->at(c.j);
    auto& st = c.m->stylus_state_modeler_.state_;
    Inv("new position", Same(x.position, w.position));
    Inv("new velocity", Same(x.velocity, w.velocity));
    Inv("new acceleration", Same(x.acceleration, w.acceleration));
    Inv("new time", KeepsTime(c.m->tip_state_buffer_[c.j].time, f, x.time));
    Inv("new pressure", KeepsValue(y.pressure, f, x.pressure));
    Inv("new tilt", KeepsValue(y.tilt, f, x.tilt));
    Inv("new orientation", KeepsAngle(y.orientation, f, x.orientation));
    Inv("missing pressure", Flagged(st.received_unknown_pressure, y.pressure));
    Inv("missing tilt", Flagged(st.received_unknown_tilt, y.tilt));
    Inv("missing orientation", Flagged(st.received_unknown_orientation, y.orientation));
  }
}
inline void ResultF(Seen& c, std::uint64_t k, float x) { Inv("strength", Same(x, c.s->at(k))); }
inline void ResultD(Seen& c, std::uint64_t k, double x) {
  Inv("time before", Or(And(k == 0, !c.since_last), Same(x, c.before->at(k))));
}
inline void Parts(Seen& c) {
  g_seen = &c;
  Opaque(&InterpAngle);
  Contract("NumberOfStepsBetweenInputs", &NumberOfSteps);
  Contract("WobbleSmoother::Update", &Smooth);
  Contract("StylusStateModeler::Update", &StylusUpdate);
  Contract("StylusStateModeler::Query", &Query);
  Contract("PositionModeler::UpdateAlongLinearPath", &Path);
  Contract("PositionModeler::ModelEndOfStroke", &EndOfStroke);
  Contract("GetStrokeNormal", &Normal);
  Contract("InterpResult", &Interpolated);
  Contract("LoopContractionMitigationModeler::GetInterpolationValue", &Strength);
  Contract("LoopContractionMitigationModeler::Update", &Speed);
  Contract("KalmanPredictor::Update", &KalmanUpdate);
  Contract("StrokeEndPredictor::Update", &EndUpdate);
  Contract("KalmanPredictor::ConstructPrediction", &Construct<1, KalmanPredictor>);
  Contract("StrokeEndPredictor::ConstructPrediction", &Construct<2, StrokeEndPredictor>);
  LoopSpec(c, ResultLoop);
  LoopSpecCells(c, "f", ResultF);
  LoopSpecCells(c, "d", ResultD);
}
inline bool ValidIn(const Input& i) {
  int e = static_cast<int>(i.event_type);
  return And(e >= 0, e <= 2, Fin(i.position.x), Fin(i.position.y), Fin(i.time.Value()));
}
inline bool Equal(const Input& a, const Input& b) {
  return And(a.event_type == b.event_type, a.position.x == b.position.x, a.position.y == b.position.y, a.time.Value() == b.time.Value(),
             a.pressure == b.pressure, a.tilt == b.tilt, a.orientation == b.orientation);
}
inline void Begin(Seen& c, StrokeModeler& m, std::vector<Result>& r, const Input& in) {
  c.m = &m; c.results = &r; c.in = &in; c.smoothed = c.tracked = c.stepped = c.ended = c.updated = c.constructed = 0; c.n = 0; c.e = 0; c.predicting = false; c.since_last = in.event_type == Input::EventType::kUp; c.refused = false;
  Any(c.j);
  c.tip0 = m.position_modeler_.CurrentState();
  if (m.last_input_.has_value()) {
    c.last = *m.last_input_;
    c.before->Def(0, c.last.input.time.Value());
  }
  c.corrected = in.position;
  AnySeq(r);
  c.base = r.size();
  c.old = r;
}
#endif
}  // namespace ink::stroke_model

#ifdef VC_SYM
namespace ink::stroke_model {
// the parts that updates may change
inline void ExceptLive(StrokeModeler& m, int kind) {
  __vc_except(&m.wobble_smoother_.state_, sizeof m.wobble_smoother_.state_);
  __vc_except(&m.position_modeler_.state_, sizeof m.position_modeler_.state_);
  __vc_except(&m.stylus_state_modeler_.state_, sizeof m.stylus_state_modeler_.state_);
  __vc_except(&m.loop_contraction_mitigation_modeler_.speed_samples_, sizeof m.loop_contraction_mitigation_modeler_.speed_samples_);
  __vc_except(&m.last_input_, sizeof m.last_input_);
  __vc_except(&m.tip_state_buffer_, sizeof m.tip_state_buffer_);
  if (kind == 1) __vc_except(m.predictor_.get(), sizeof(KalmanPredictor));
  if (kind == 2) __vc_except(m.predictor_.get(), sizeof(StrokeEndPredictor));
}
// what is saved
inline void ExceptSaved(StrokeModeler& m) {
  __vc_except(&m.wobble_smoother_.saved_state_, sizeof m.wobble_smoother_.saved_state_);
  __vc_except(&m.wobble_smoother_.save_active_, 1);
  __vc_except(&m.position_modeler_.saved_state_, sizeof m.position_modeler_.saved_state_);
  __vc_except(&m.stylus_state_modeler_.saved_state_, sizeof m.stylus_state_modeler_.saved_state_);
  __vc_except(&m.stylus_state_modeler_.save_active_, 1);
  __vc_except(&m.loop_contraction_mitigation_modeler_.saved_speed_samples_, sizeof m.loop_contraction_mitigation_modeler_.saved_speed_samples_);
  __vc_except(&m.loop_contraction_mitigation_modeler_.save_active_, 1);
  __vc_except(&m.saved_last_input_, sizeof m.saved_last_input_);
  __vc_except(&m.saved_predictor_, sizeof m.saved_predictor_);
  __vc_except(&m.save_active_, 1);
}
// every result is the one of its tip state
inline void CheckResults(Seen& c, bool pr, bool ti, bool ori) {
  auto& r = *c.results;
  std::uint64_t n = c.m->tip_state_buffer_.size();
  VC_ASSERT("C07", "results: one for each tip state", r.size() == c.base + n);
  if (c.j < c.base) VC_ASSERT("C05", "results: earlier ones are unchanged", Same(r[c.j], c.old[c.j]));
  if (c.j < n) {
    c.w->Def(c.j, Blend(c, c.j));
    Result w = c.w->at(c.j);
    const Result& x = r[c.base + c.j];
    VC_ASSERT("C16", "results: position is the blend of projection and tip", Same(x.position, w.position));
    VC_ASSERT("C16", "results: velocity is the blend of projection and tip", Same(x.velocity, w.velocity));
    VC_ASSERT("C16", "results: acceleration is the blend of projection and tip", Same(x.acceleration, w.acceleration));
    float f = c.s->at(c.j);
    Result y = c.q->at(c.j);
    VC_ASSERT("C08", "results: at the time of the tip", KeepsTime(c.m->tip_state_buffer_[c.j].time, f, x.time));
    VC_ASSERT("C13", "results: pressure at the projection", KeepsValue(y.pressure, f, x.pressure));
    VC_ASSERT("C13", "results: tilt at the projection", KeepsValue(y.tilt, f, x.tilt));
    VC_ASSERT("C14", "results: orientation in [0, 2 pi)", KeepsAngle(y.orientation, f, x.orientation));
    VC_ASSERT("C12", "results: pressure is missing exactly when an input missed it", Flagged(pr, x.pressure));
    VC_ASSERT("C12", "results: tilt is missing exactly when an input missed it", Flagged(ti, x.tilt));
    VC_ASSERT("C12", "results: orientation is missing exactly when an input missed it", Flagged(ori, x.orientation));
  }
}
}  // namespace ink::stroke_model
#endif

extern "C" void h_interp() {
#ifdef VC_SYM
  Opaque(&InterpAngle);
  Result a = Arb<Result>(), b = Arb<Result>();
  float f = Arb<float>();
  Result r = InterpResult(a, b, f);
  VC_ASSERT("C16", "blend: position", Same(r.position, RefLerp(a.position, b.position, f)));
  VC_ASSERT("C16", "blend: velocity", Same(r.velocity, RefLerp(a.velocity, b.velocity, f)));
  VC_ASSERT("C16", "blend: acceleration", Same(r.acceleration, RefLerp(a.acceleration, b.acceleration, f)));
  VC_ASSERT("C13", "interpolation: pressure", Or(a.pressure < 0, b.pressure < 0, Same(r.pressure, RefLerp(a.pressure, b.pressure, f))));
  VC_ASSERT("C13", "interpolation: tilt", Or(a.tilt < 0, b.tilt < 0, Same(r.tilt, RefLerp(a.tilt, b.tilt, f))));
  VC_ASSERT("C14", "interpolation: orientation", Or(a.orientation < 0, b.orientation < 0, Same(r.orientation, InterpAngle(a.orientation, b.orientation, f))));
  VC_ASSERT("C12", "interpolation: pressure missing on either side is missing", Implies(Or(a.pressure < 0, b.pressure < 0), r.pressure == -1));
  VC_ASSERT("C12", "interpolation: tilt missing on either side is missing", Implies(Or(a.tilt < 0, b.tilt < 0), r.tilt == -1));
  VC_ASSERT("C12", "interpolation: orientation missing on either side is missing", Implies(Or(a.orientation < 0, b.orientation < 0), r.orientation == -1));
  VC_COVER("interpolation");
#endif
}
extern "C" void h_interp_same() {
#ifdef VC_SYM
  Opaque(&InterpAngle);
  Result a = Arb<Result>(), b = Arb<Result>();
  float f = Arb<float>();
  b.pressure = a.pressure; b.tilt = a.tilt; b.orientation = a.orientation; b.time = a.time;
  float angle = InterpAngle(a.orientation, a.orientation, f);
  Assume(Or(angle != angle, And(angle >= 0, angle < 2 * 3.14159265358979323846)));   // h_angle
  Result r = InterpResult(a, b, f);
  VC_ASSERT("C08", "blend: keeps a common time", KeepsTime(a.time, f, r.time));
  VC_ASSERT("C12", "blend: keeps a common pressure", KeepsValue(a.pressure, f, r.pressure));
  VC_ASSERT("C12", "blend: keeps a common tilt", KeepsValue(a.tilt, f, r.tilt));
  VC_ASSERT("C14", "blend: orientation in [0, 2 pi)", KeepsAngle(a.orientation, f, r.orientation));
  VC_COVER("blend");
#endif
}

// A move or up event of an initialised modeler.
template <Input::EventType kType> inline void MoveOrUp(int kind) {
#ifdef VC_SYM
  constexpr bool up = kType == Input::EventType::kUp;
  StrokeModeler m;
  ArbModeler(m, kind, Arb<bool>(), kind != 0, true);
  Assume(ValidateSamplingParams(m.stroke_model_params_->sampling_params).ok());
  std::vector<Result> results;
  Input in = Arb<Input>();
  in.event_type = kType;
  Seen c;
  Fun<Result> q("query");
  Fun<float> s("strength");
  Fun<Result> w("wanted"), r("result");
  Fun<double> before("before");
  c.q = &q; c.s = &s; c.w = &w; c.r = &r; c.before = &before;
  Begin(c, m, results, in);
  Parts(c);
  bool had = m.last_input_.has_value();
  std::uint64_t snap = __vc_snapshot(&m), rsnap = __vc_snapshot(&results);
  auto st = m.Update(in, results);
  bool dup = false, back = false;
  if (had) { dup = Equal(c.last.input, in); back = in.time.Value() < c.last.input.time.Value(); }
  if (!st.ok()) {
    VC_ASSERT("C03", "status: a malformed input is an invalid argument", Or(ValidIn(in), st.code() == absl::StatusCode::kInvalidArgument));
    VC_ASSERT("C03", "status: out of order is a failed precondition", Implies(And(ValidIn(in), !had), st.code() == absl::StatusCode::kFailedPrecondition));
    VC_ASSERT("C03", "status: anything else is an invalid argument", Implies(had, st.code() == absl::StatusCode::kInvalidArgument));
    VC_ASSERT("C03", "status: nothing else is refused but for too many results", Or(!ValidIn(in), !had, dup, back, c.refused));
    __vc_except(&m.tip_state_buffer_, sizeof m.tip_state_buffer_);
    __vc_assert_unchanged(snap, "C04", "a rejected input leaves the modeler unchanged");
    __vc_except_clear();
    __vc_assert_unchanged(rsnap, "C04", "a rejected input leaves the results unchanged");
    __vc_assert_unchanged(rsnap, "C05", "a rejected input leaves the results unchanged");
    VC_COVER("rejected");
    return;
  }
  VC_ASSERT("C03", "status: only a valid continuation is accepted", And(ValidIn(in), had, !dup, !back, !c.refused));
  VC_COVER("accepted");
  VC_ASSERT("C12", "the stylus values of every input are tracked", c.tracked == 1);
  VC_ASSERT("C09", "the tip moves along the path to every input", c.stepped == 1);
  VC_ASSERT("C09", "the tip stays where the last step left it", Same(m.position_modeler_.state_, c.tip0));
  auto& f = m.stylus_state_modeler_.state_;
  CheckResults(c, f.received_unknown_pressure, f.received_unknown_tilt, f.received_unknown_orientation);
  auto& sp = m.stroke_model_params_->sampling_params;
  if (up) {
    VC_ASSERT("C10", "the end of the stroke catches up once", c.ended == 1);
    VC_ASSERT("C10", "the states are those of the path and of the end, or the current one",
              m.tip_state_buffer_.size() == static_cast<std::uint64_t>(c.n) + static_cast<std::uint64_t>(c.e) + (c.n + c.e == 0 ? 1u : 0u));
    if (c.n + c.e == 0) VC_ASSERT("C10", "with no state the current one is output", Same(m.tip_state_buffer_[0], m.position_modeler_.state_));
    VC_ASSERT("C07", "up: at least one result and at most the limit",
              And(results.size() > c.base, results.size() - c.base <= static_cast<std::uint64_t>(sp.max_outputs_per_call)));
    VC_ASSERT("C03", "no stroke is in progress after up", !m.last_input_.has_value());
    VC_ASSERT("C11", "up is not smoothed", c.smoothed == 0);
  } else {
    VC_ASSERT("C07", "move: as many results as steps", results.size() == c.base + static_cast<std::uint64_t>(c.n));
    VC_ASSERT("C10", "the stroke does not end with a move", c.ended == 0);
    VC_ASSERT("C11", "every move is smoothed once", c.smoothed == 1);
    VC_ASSERT("C09", "the next input continues from the corrected position", And(m.last_input_.has_value(), Same(m.last_input_->corrected_position, c.moved)));
    VC_ASSERT("C03", "the input is the last one of the stroke", Same(m.last_input_->input, in));
    if (kind == 1) VC_ASSERT("C21", "every move is an observation", c.updated == 1);
    if (kind == 2) VC_ASSERT("C22", "predictions are towards the last move", c.updated == 1);
  }
  ExceptLive(m, kind);
  __vc_assert_unchanged(snap, "C17", "updates do not touch the saved state or the parameters");
  __vc_except_clear();
#endif
}
extern "C" void h_move_kalman() { MoveOrUp<Input::EventType::kMove>(1); }
extern "C" void h_move_end() { MoveOrUp<Input::EventType::kMove>(2); }
extern "C" void h_move_none() { MoveOrUp<Input::EventType::kMove>(0); }
extern "C" void h_up_kalman() { MoveOrUp<Input::EventType::kUp>(1); }
extern "C" void h_up_end() { MoveOrUp<Input::EventType::kUp>(2); }
extern "C" void h_up_none() { MoveOrUp<Input::EventType::kUp>(0); }

// Predictions.
inline void Predicted(int kind) {
#ifdef VC_SYM
  StrokeModeler m;
  ArbModeler(m, kind, Arb<bool>(), kind != 0, true);
  Assume(ValidateSamplingParams(m.stroke_model_params_->sampling_params).ok());
  std::vector<Result> results;
  Input none = Arb<Input>();
  Seen c;
  Fun<Result> q("query");
  Fun<float> s("strength");
  Fun<Result> w("wanted"), r("result");
  Fun<double> before("before");
  c.q = &q; c.s = &s; c.w = &w; c.r = &r; c.before = &before;
  Begin(c, m, results, none);
  c.base = 0;
  c.predicting = c.since_last = true;
  Parts(c);
  bool had = m.last_input_.has_value();
  std::uint64_t snap = __vc_snapshot(&m);
  const StrokeModeler& cm = m;
  auto st = cm.Predict(results);
  __vc_except(&m.tip_state_buffer_, sizeof m.tip_state_buffer_);
  __vc_assert_unchanged(snap, "C18", "a prediction leaves the modeler unchanged");
  __vc_except_clear();
  VC_ASSERT("C03", "prediction: succeeds exactly in a stroke with prediction enabled", st.ok() == And(kind != 0, had));
  if (!st.ok()) {
    VC_ASSERT("C03", "prediction: refused as a failed precondition", st.code() == absl::StatusCode::kFailedPrecondition);
    VC_ASSERT("C05", "prediction: an error leaves no results", results.empty());
    VC_COVER("refused");
    return;
  }
  VC_ASSERT("C18", "prediction: by the predictor", c.constructed == 1);
  VC_ASSERT("C05", "prediction: replaces the results", results.size() == m.tip_state_buffer_.size());
  VC_ASSERT("C07", "prediction: at most the limit", results.size() <= static_cast<std::uint64_t>(m.stroke_model_params_->sampling_params.max_outputs_per_call));
  auto& f = m.stylus_state_modeler_.state_;
  CheckResults(c, f.received_unknown_pressure, f.received_unknown_tilt, f.received_unknown_orientation);
  VC_COVER("predicted");
#endif
}
extern "C" void h_predict_kalman() { Predicted(1); }
extern "C" void h_predict_end() { Predicted(2); }
extern "C" void h_predict_none() { Predicted(0); }

// Calls before the first reset with parameters.
extern "C" void h_uninit() {
#ifdef VC_SYM
  StrokeModeler m;
  std::vector<Result> results;
  AnySeq(results);
  std::vector<Result> old = results;
  Input in = Arb<Input>();
  std::uint64_t snap = __vc_snapshot(&m), rsnap = __vc_snapshot(&results);
  VC_ASSERT("C03", "uninitialised: an update is a failed precondition", m.Update(in, results).code() == absl::StatusCode::kFailedPrecondition);
  __vc_assert_unchanged(rsnap, "C04", "uninitialised: results are unchanged");
  VC_ASSERT("C02", "uninitialised: reset needs parameters", m.Reset().code() == absl::StatusCode::kFailedPrecondition);
  __vc_assert_unchanged(snap, "C02", "uninitialised: nothing changes");
  __vc_assert_unchanged(snap, "C04", "uninitialised: nothing changes");
  VC_ASSERT("C03", "uninitialised: a prediction is a failed precondition", m.Predict(results).code() == absl::StatusCode::kFailedPrecondition);
  VC_ASSERT("C05", "uninitialised: a prediction leaves no results", results.empty());
  m.Restore();
  __vc_assert_unchanged(snap, "C17", "uninitialised: there is nothing to restore");
  VC_COVER("uninitialised");
#endif
}

#ifdef VC_SYM
namespace ink::stroke_model {
inline bool g_valid;
inline const StrokeModelParams* g_params;
absl::Status Validate(const StrokeModelParams& p) {
  VC_ASSERT("C02", "reset: the new parameters are validated", &p == g_params);
  g_valid = Arb<bool>();
  if (!g_valid) return absl::InvalidArgumentError("no");
  return absl::OkStatus();
}
inline bool SameParams(const StrokeModelParams& a, const StrokeModelParams& b, int kind) {
  return And(Same(a.wobble_smoother_params, b.wobble_smoother_params), Same(a.position_modeler_params, b.position_modeler_params),
             Same(a.sampling_params, b.sampling_params), Same(a.stylus_state_modeler_params, b.stylus_state_modeler_params),
             a.prediction_params.index() == b.prediction_params.index(),
             kind != 1 || Same(std::get<KalmanPredictorParams>(a.prediction_params), std::get<KalmanPredictorParams>(b.prediction_params)));
}
inline bool Same(const Vec4& a, const Vec4& b) { return And(Same(a[0], b[0]), Same(a[1], b[1]), Same(a[2], b[2]), Same(a[3], b[3])); }
inline bool Same(const Matrix4& a, const Matrix4& b) {
  return And(Same(a.array_[0], b.array_[0]), Same(a.array_[1], b.array_[1]), Same(a.array_[2], b.array_[2]), Same(a.array_[3], b.array_[3]));
}
// configuration of a filter
inline bool SameModel(const KalmanFilter& a, const KalmanFilter& b) {
  return And(Same(a.state_transition_matrix_, b.state_transition_matrix_), Same(a.process_noise_covariance_matrix_, b.process_noise_covariance_matrix_),
             Same(a.measurement_vector_, b.measurement_vector_), Same(a.measurement_noise_variance_, b.measurement_noise_variance_),
             a.min_stable_iteration_ == b.min_stable_iteration_);
}
inline bool SameState(const KalmanFilter& a, const KalmanFilter& b) {
  return And(Same(a.state_estimation_, b.state_estimation_), Same(a.error_covariance_matrix_, b.error_covariance_matrix_), a.iter_num_ == b.iter_num_);
}
inline bool SamePredictorParams(const InputPredictor* a, const InputPredictor* b, int kind) {
  if (kind == 0) return And(a == nullptr, b == nullptr);
  if (a == nullptr || b == nullptr) return false;
  // the same class: the same virtual functions
  if (*reinterpret_cast<void* const*>(a) != *reinterpret_cast<void* const*>(b)) return false;
  if (kind == 1) {
    auto *p = static_cast<const KalmanPredictor*>(a), *q = static_cast<const KalmanPredictor*>(b);
    return And(Same(p->predictor_params_, q->predictor_params_), Same(p->sampling_params_, q->sampling_params_),
               SameModel(p->x_predictor_.kalman_filter_, q->x_predictor_.kalman_filter_), SameModel(p->y_predictor_.kalman_filter_, q->y_predictor_.kalman_filter_));
  }
  auto *p = static_cast<const StrokeEndPredictor*>(a), *q = static_cast<const StrokeEndPredictor*>(b);
  return And(Same(p->position_modeler_params_, q->position_modeler_params_), Same(p->sampling_params_, q->sampling_params_));
}
}  // namespace ink::stroke_model
#endif
// Reset with parameters, from a modeler with any other kind of predictor.
inline void ResetTo(int from, int kind) {
#ifdef VC_SYM
  StrokeModeler m;
  ArbModeler(m, from, Arb<bool>(), Arb<bool>(), true);
  StrokeModelParams p = ArbParams(kind);
  g_params = &p;
  Contract("ValidateStrokeModelParams", &Validate);
  std::uint64_t snap = __vc_snapshot(&m);
  auto st = m.Reset(p);
  VC_ASSERT("C02", "reset: accepted exactly when the parameters are valid", st.ok() == g_valid);
  if (!st.ok()) {
    VC_ASSERT("C02", "reset: refused as an invalid argument", st.code() == absl::StatusCode::kInvalidArgument);
    __vc_assert_unchanged(snap, "C02", "reset: a refusal changes nothing");
    VC_COVER("refused");
    return;
  }
  VC_ASSERT("C02", "reset: no stroke is in progress", !m.last_input_.has_value());
  VC_ASSERT("C02", "reset: the saved state is discarded", !m.save_active_);
  VC_ASSERT("C02", "reset: the parameters are the new ones", And(m.stroke_model_params_.has_value(), SameParams(*m.stroke_model_params_, p, kind)));
  auto want = NewPredictor(p, kind);
  VC_ASSERT("C19", "reset: the predictor is that of the new parameters", SamePredictorParams(m.predictor_.get(), want.get(), kind));
  VC_ASSERT("C22", "reset: the predictor is that of the new parameters", SamePredictorParams(m.predictor_.get(), want.get(), kind));
  VC_COVER("reset");
#endif
}
extern "C" void h_reset_kalman() { ResetTo(2, 1); }
extern "C" void h_reset_end() { ResetTo(1, 2); }
extern "C" void h_reset_none() { ResetTo(1, 0); }
extern "C" void h_reset_same() {
#ifdef VC_SYM
  StrokeModeler m;
  ArbModeler(m, 1, Arb<bool>(), Arb<bool>(), true);
  std::uint64_t snap = __vc_snapshot(&m);
  auto st = m.Reset();
  VC_ASSERT("C02", "reset without parameters: accepted", st.ok());
  VC_ASSERT("C02", "reset without parameters: no stroke is in progress", !m.last_input_.has_value());
  VC_ASSERT("C02", "reset without parameters: the saved state is discarded", !m.save_active_);
  ExceptLive(m, 1);
  ExceptSaved(m);
  __vc_assert_unchanged(snap, "C19", "reset without parameters: the parameters stay");
  VC_COVER("reset");
#endif
}

#ifdef VC_SYM
namespace ink::stroke_model {
inline bool Same(const WSample& a, const WSample& b) {
  return And(Same(a.position, b.position), Same(a.weighted_position, b.weighted_position), Same(a.distance, b.distance), Same(a.duration, b.duration), Same(a.time, b.time));
}
inline bool Same(const WobbleSmoother::State& a, const WobbleSmoother::State& b) {
  return And(SameSeq(a.samples, b.samples), Same(a.weighted_position_sum, b.weighted_position_sum), Same(a.distance_sum, b.distance_sum), Same(a.duration_sum, b.duration_sum));
}
inline bool Same(const StylusStateModeler::ModelerState& a, const StylusStateModeler::ModelerState& b) {
  return And(a.received_unknown_pressure == b.received_unknown_pressure, a.received_unknown_tilt == b.received_unknown_tilt, a.received_unknown_orientation == b.received_unknown_orientation,
             SameSeq(a.raw_input_and_stylus_states, b.raw_input_and_stylus_states));
}
inline bool Same(const StrokeModeler::InputAndCorrectedPosition& a, const StrokeModeler::InputAndCorrectedPosition& b) {
  return And(Same(a.input, b.input), Same(a.corrected_position, b.corrected_position));
}
inline bool SamePredictorState(const InputPredictor* a, const InputPredictor* b, int kind) {
  if (kind == 0) return true;
  if (kind == 1) {
    auto *p = static_cast<const KalmanPredictor*>(a), *q = static_cast<const KalmanPredictor*>(b);
    return And(Same(p->last_position_received_, q->last_position_received_), SameSeq(p->sample_times_, q->sample_times_),
               SameState(p->x_predictor_.kalman_filter_, q->x_predictor_.kalman_filter_), SameState(p->y_predictor_.kalman_filter_, q->y_predictor_.kalman_filter_));
  }
  auto *p = static_cast<const StrokeEndPredictor*>(a), *q = static_cast<const StrokeEndPredictor*>(b);
  return Same(p->last_position_, q->last_position_);
}
// Everything the rest of a stroke depends on.
struct Live {
  WobbleSmoother::State wobble;
  TipState tip;
  StylusStateModeler::ModelerState stylus;
  std::deque<LSample> speeds;
  std::optional<StrokeModeler::InputAndCorrectedPosition> last;
  std::unique_ptr<InputPredictor> predictor;
  Live(const StrokeModeler& m, int kind)
      : wobble(m.wobble_smoother_.state_), tip(m.position_modeler_.state_), stylus(m.stylus_state_modeler_.state_),
        speeds(m.loop_contraction_mitigation_modeler_.speed_samples_), last(m.last_input_) {
    if (kind == 1) predictor = std::make_unique<KalmanPredictor>(*static_cast<KalmanPredictor*>(m.predictor_.get()));
    if (kind == 2) predictor = std::make_unique<StrokeEndPredictor>(*static_cast<StrokeEndPredictor*>(m.predictor_.get()));
  }
};
inline void CheckLive(const char* prop, const StrokeModeler& m, const Live& l, int kind) {
  VC_ASSERT(prop, "state: wobble smoother", Same(m.wobble_smoother_.state_, l.wobble));
  VC_ASSERT(prop, "state: tip", Same(m.position_modeler_.state_, l.tip));
  VC_ASSERT(prop, "state: stylus values", Same(m.stylus_state_modeler_.state_, l.stylus));
  VC_ASSERT(prop, "state: speeds", SameSeq(m.loop_contraction_mitigation_modeler_.speed_samples_, l.speeds));
  VC_ASSERT(prop, "state: last input", Same(m.last_input_, l.last));
  VC_ASSERT(prop, "state: predictor parameters", SamePredictorParams(m.predictor_.get(), l.predictor.get(), kind));
  VC_ASSERT(prop, "state: predictor", SamePredictorState(m.predictor_.get(), l.predictor.get(), kind));
}
inline InputPredictor* g_fresh;
inline const Input* g_in;
inline int g_observed;
// the first observation of a stroke goes to a predictor like a new one
void FirstKalman(KalmanPredictor* p, Vec2 pos, Time t) {
  VC_ASSERT("C19", "down: the predictor is like a new one", SamePredictorState(p, g_fresh, 1));
  VC_ASSERT("C21", "down: the estimate starts anew", SamePredictorState(p, g_fresh, 1));
  VC_ASSERT("C21", "down: the input is the first observation", And(Same(pos, g_in->position), Same(t, g_in->time)));
  g_observed += 1;
  Havoc(p, 1, true);
}
}  // namespace ink::stroke_model
#endif

// The first input of a stroke.
inline void Down(int kind) {
#ifdef VC_SYM
  StrokeModeler m, f;
  ArbModeler(m, kind, Arb<bool>(), kind != 0, Arb<bool>());
  const StrokeModelParams& P = *m.stroke_model_params_;
  Assume(ValidateStylusStateModelerParams(P.stylus_state_modeler_params).ok());   // accepted parameters are valid
  // a modeler that has only been given these parameters
  f.stroke_model_params_ = P;
  f.predictor_ = NewPredictor(P, kind);
  auto fresh = NewPredictor(P, kind);
  g_fresh = fresh.get();
  std::vector<Result> results;
  Input in = Arb<Input>();
  in.event_type = Input::EventType::kDown;
  g_in = &in; g_observed = 0;
  AnySeq(results);
  std::vector<Result> old = results, other;
  Contract("KalmanPredictor::Update", &FirstKalman);
  bool had = m.last_input_.has_value(), dup = false, back = false;
  if (had) { dup = Equal(m.last_input_->input, in); back = in.time.Value() < m.last_input_->input.time.Value(); }
  bool saved = m.save_active_, savedstroke = m.saved_last_input_.has_value();
  std::uint64_t snap = __vc_snapshot(&m), rsnap = __vc_snapshot(&results);
  auto st = m.Update(in, results);
  if (!st.ok()) {
    VC_ASSERT("C03", "down: a malformed input is an invalid argument", Or(ValidIn(in), st.code() == absl::StatusCode::kInvalidArgument));
    VC_ASSERT("C03", "down: in a stroke it is a failed precondition", Or(!ValidIn(in), dup, back, st.code() == absl::StatusCode::kFailedPrecondition));
    VC_ASSERT("C03", "down: a duplicate or an earlier time is an invalid argument", Or(!ValidIn(in), !Or(dup, back), st.code() == absl::StatusCode::kInvalidArgument));
    VC_ASSERT("C03", "down: nothing else is refused", Or(!ValidIn(in), had));
    __vc_assert_unchanged(snap, "C04", "down: a rejected input leaves the modeler unchanged");
    __vc_assert_unchanged(rsnap, "C04", "down: a rejected input leaves the results unchanged");
    __vc_assert_unchanged(rsnap, "C05", "down: a rejected input leaves the results unchanged");
    VC_COVER("rejected");
    return;
  }
  VC_ASSERT("C03", "down: accepted only outside of a stroke", And(ValidIn(in), !had));
  VC_ASSERT("C06", "down: exactly one result", results.size() == old.size() + 1);
  VC_ASSERT("C07", "down: exactly one result", results.size() == old.size() + 1);
  std::uint64_t j = Arb<std::uint64_t>();
  if (j < old.size()) VC_ASSERT("C05", "down: earlier results are unchanged", Same(results[j], old[j]));
  const Result& r = results.back();
  VC_ASSERT("C06", "down: at the position of the input", Same(r.position, in.position));
  VC_ASSERT("C06", "down: at the time of the input", Same(r.time, in.time));
  VC_ASSERT("C08", "down: at the time of the input", Same(r.time, in.time));
  VC_ASSERT("C06", "down: at rest", And(r.velocity.x == 0, r.velocity.y == 0, r.acceleration.x == 0, r.acceleration.y == 0));
  VC_ASSERT("C06", "down: with the stylus values of the input", And(Same(r.pressure, in.pressure), Same(r.tilt, in.tilt), Same(r.orientation, in.orientation)));
  VC_ASSERT("C03", "down: a stroke is in progress", m.last_input_.has_value());
  VC_ASSERT("C09", "down: the path starts at the input", And(Same(m.last_input_->input, in), Same(m.last_input_->corrected_position, in.position)));
  VC_ASSERT("C09", "down: the tip starts at the input", And(Same(m.position_modeler_.state_.position, in.position), Same(m.position_modeler_.state_.time, in.time),
            Same(m.position_modeler_.state_.velocity, Vec2{0, 0}), Same(m.position_modeler_.state_.acceleration, Vec2{0, 0})));
  auto& s = m.stylus_state_modeler_.state_;
  VC_ASSERT("C12", "down: missing what the input misses", And(Implies(in.pressure < 0, s.received_unknown_pressure), Implies(in.tilt < 0, s.received_unknown_tilt), Implies(in.orientation < 0, s.received_unknown_orientation)));
  VC_ASSERT("C12", "down: not missing what the input has", And(Implies(in.pressure >= 0, !s.received_unknown_pressure), Implies(in.tilt >= 0, !s.received_unknown_tilt), Implies(in.orientation >= 0, !s.received_unknown_orientation)));
  VC_ASSERT("C11", "down: the smoother has the accepted parameters", Same(m.wobble_smoother_.params_, P.wobble_smoother_params));
  VC_ASSERT("C09", "down: the position modeler has the accepted parameters", Same(m.position_modeler_.params_, P.position_modeler_params));
  VC_ASSERT("C13", "down: the stylus modeler has the accepted parameters", Same(m.stylus_state_modeler_.params_, P.stylus_state_modeler_params));
  VC_ASSERT("C16", "down: loop mitigation has the accepted parameters", Same(m.loop_contraction_mitigation_modeler_.params_, P.position_modeler_params.loop_contraction_mitigation_params));
  VC_ASSERT("C16", "down: no speeds of an earlier stroke", m.loop_contraction_mitigation_modeler_.speed_samples_.empty());
  VC_ASSERT("C17", "down: a state saved in an earlier stroke cannot be restored", Implies(savedstroke, !m.save_active_));
  VC_ASSERT("C17", "down: nothing is saved by it", Implies(m.save_active_, saved));
  if (kind == 2) {
    auto& l = static_cast<StrokeEndPredictor*>(m.predictor_.get())->last_position_;
    VC_ASSERT("C22", "down: predictions are towards the input", And(l.has_value(), Same(*l, in.position)));
  }
  if (kind == 1) VC_ASSERT("C21", "down: one observation", g_observed == 1);
  // The rest of the stroke does not depend on what was before.
  auto st2 = f.Update(in, other);
  VC_ASSERT("C19", "down: a new modeler accepts the same", st2.ok());
  Live l(f, kind);
  VC_ASSERT("C19", "down: wobble smoother like a new one", Same(m.wobble_smoother_.state_, l.wobble));
  VC_ASSERT("C19", "down: tip like a new one", Same(m.position_modeler_.state_, l.tip));
  VC_ASSERT("C19", "down: stylus values like a new one", Same(m.stylus_state_modeler_.state_, l.stylus));
  VC_ASSERT("C19", "down: speeds like a new one", SameSeq(m.loop_contraction_mitigation_modeler_.speed_samples_, l.speeds));
  VC_ASSERT("C19", "down: last input like a new one", Same(m.last_input_, l.last));
  if (kind == 2) VC_ASSERT("C19", "down: predictor like a new one", SamePredictorState(m.predictor_.get(), l.predictor.get(), kind));
  VC_ASSERT("C19", "down: predictor parameters like a new one", SamePredictorParams(m.predictor_.get(), l.predictor.get(), kind));
  VC_ASSERT("C19", "down: parameters like a new one", And(Same(m.wobble_smoother_.params_, f.wobble_smoother_.params_), Same(m.position_modeler_.params_, f.position_modeler_.params_),
            Same(m.stylus_state_modeler_.params_, f.stylus_state_modeler_.params_), Same(m.loop_contraction_mitigation_modeler_.params_, f.loop_contraction_mitigation_modeler_.params_)));
  VC_COVER("accepted");
#endif
}
extern "C" void h_down_kalman() { Down(1); }
extern "C" void h_down_end() { Down(2); }
extern "C" void h_down_none() { Down(0); }

// Inputs that are no event at all.
extern "C" void h_bad() {
#ifdef VC_SYM
  StrokeModeler m;
  ArbModeler(m, 1, Arb<bool>(), true, Arb<bool>());
  std::vector<Result> results;
  AnySeq(results);
  Input in = Arb<Input>();
  int e = static_cast<int>(in.event_type);
  Assume(Or(e < 0, e > 2));
  std::uint64_t snap = __vc_snapshot(&m), rsnap = __vc_snapshot(&results);
  auto st = m.Update(in, results);
  VC_ASSERT("C03", "no event: an invalid argument", st.code() == absl::StatusCode::kInvalidArgument);
  __vc_assert_unchanged(snap, "C04", "no event: the modeler is unchanged");
  __vc_assert_unchanged(rsnap, "C04", "no event: the results are unchanged");
  VC_COVER("no event");
#endif
}

// Saving and restoring.
inline void SaveRestore(int kind) {
#ifdef VC_SYM
  StrokeModeler m;
  ArbModeler(m, kind, Arb<bool>(), Arb<bool>(), Arb<bool>());
  Live want(m, kind);
  StrokeModelParams P = *m.stroke_model_params_;
  WobbleSmootherParams wp = m.wobble_smoother_.params_;
  PositionModelerParams pp = m.position_modeler_.params_;
  StylusStateModelerParams yp = m.stylus_state_modeler_.params_;
  auto lp = m.loop_contraction_mitigation_modeler_.params_;
  m.Save();
  CheckLive("C17", m, want, kind);
  VC_ASSERT("C17", "save: the saved predictor is a copy", kind == 0 || m.saved_predictor_.get() != m.predictor_.get());
  // any stroke from here on
  HavocLive(m, kind, Arb<bool>(), true);
  AnySeq(m.tip_state_buffer_);
  m.Restore();
  CheckLive("C17", m, want, kind);
  VC_ASSERT("C17", "restore: the predictor is a copy", kind == 0 || m.saved_predictor_.get() != m.predictor_.get());
  HavocLive(m, kind, Arb<bool>(), true);
  m.Restore();
  CheckLive("C17", m, want, kind);
  VC_ASSERT("C17", "restore: the parameters stay", And(SameParams(*m.stroke_model_params_, P, kind), Same(m.wobble_smoother_.params_, wp), Same(m.position_modeler_.params_, pp),
            Same(m.stylus_state_modeler_.params_, yp), Same(m.loop_contraction_mitigation_modeler_.params_, lp)));
  VC_COVER("restored");
#endif
}
extern "C" void h_save_kalman() { SaveRestore(1); }
extern "C" void h_save_end() { SaveRestore(2); }
extern "C" void h_save_none() { SaveRestore(0); }
extern "C" void h_restore_nothing() {
#ifdef VC_SYM
  StrokeModeler m;
  ArbModeler(m, 1, Arb<bool>(), Arb<bool>(), Arb<bool>());
  m.save_active_ = false;
  std::uint64_t s = __vc_snapshot(&m);
  m.Restore();
  __vc_assert_unchanged(s, "C17", "restore: does nothing without a saved state");
  VC_COVER("nothing");
#endif
}
