// C01: a parameter set is accepted if and only if it meets the documented
// constraints; the rejection status is always invalid-argument.
#include "lib.inc"
#include "types.h"
using namespace vc;

static bool Pos(float x) { return And(x > 0, Fin(x)); }
static bool Pos(double x) { return And(x > 0, Fin(x)); }
static bool NonNeg(float x) { return And(x >= 0, Fin(x)); }
static bool NonNeg(double x) { return And(x >= 0, Fin(x)); }

static bool LoopOk(const PositionModelerParams::LoopContractionMitigationParameters& p) {
  return Or(!p.is_enabled,
            And(NonNeg(p.speed_lower_bound), Fin(p.speed_upper_bound), p.speed_lower_bound <= p.speed_upper_bound,
                p.interpolation_strength_at_speed_lower_bound <= 1, p.interpolation_strength_at_speed_upper_bound >= 0,
                p.interpolation_strength_at_speed_lower_bound >= p.interpolation_strength_at_speed_upper_bound,
                p.min_discrete_speed_samples >= 1, p.min_discrete_speed_samples <= 10000,
                p.min_speed_sampling_window.Value() > 0, p.min_speed_sampling_window.Value() <= 10000));
}
static bool PositionOk(const PositionModelerParams& p) {
  return And(LoopOk(p.loop_contraction_mitigation_params), Pos(p.spring_mass_constant), Pos(p.drag_constant));
}
static bool SamplingOk(const SamplingParams& p) {
  return And(Pos(p.min_output_rate), Pos(p.end_of_stroke_stopping_distance),
             p.end_of_stroke_max_iterations >= 1, p.end_of_stroke_max_iterations <= 1000, p.max_outputs_per_call >= 1,
             Or(p.max_estimated_angle_to_traverse_per_input == -1,
                And(p.max_estimated_angle_to_traverse_per_input > 0, p.max_estimated_angle_to_traverse_per_input < 3.14159265358979323846)));
}
static bool StylusOk(const StylusStateModelerParams& p) {
  return Or(And(p.use_stroke_normal_projection, p.min_input_samples >= 1, Pos(p.min_sample_duration.Value())),
            And(!p.use_stroke_normal_projection, p.max_input_samples >= 1));
}
static bool WobbleOk(const WobbleSmootherParams& p) {
  return Or(!p.is_enabled, And(NonNeg(p.timeout.Value()), NonNeg(p.speed_floor), Fin(p.speed_ceiling), p.speed_floor <= p.speed_ceiling));
}
static bool KalmanOk(const KalmanPredictorParams& p) {
  auto& c = p.confidence_params;
  return And(Pos(p.process_noise), Pos(p.measurement_noise), p.min_stable_iteration >= 1, p.max_time_samples >= 1,
             Pos(p.min_catchup_velocity), Fin(p.acceleration_weight), Fin(p.jerk_weight), Pos(p.prediction_interval.Value()),
             c.desired_number_of_samples >= 1, Pos(c.max_estimation_distance), NonNeg(c.min_travel_speed), Fin(c.max_travel_speed),
             c.min_travel_speed <= c.max_travel_speed, Pos(c.max_linear_deviation),
             And(c.baseline_linearity_confidence >= 0, c.baseline_linearity_confidence <= 1));
}
static void Check(const char* what, absl::Status s, bool ok) {
  VC_ASSERT("C01", what, s.ok() == ok);
  VC_ASSERT("C01", "rejection is invalid-argument", Or(s.ok(), s.code() == absl::StatusCode::kInvalidArgument));
}

extern "C" void h_params() {
  StrokeModelParams p;
  Any(p.wobble_smoother_params);
  Any(p.position_modeler_params);
  Any(p.sampling_params);
  Any(p.stylus_state_modeler_params);
  int kind; Any(kind); Assume(kind >= 0 && kind <= 2);
  bool pred = true;
  if (kind == 0) p.prediction_params = StrokeEndPredictorParams{};
  if (kind == 1) { KalmanPredictorParams k; Any(k); p.prediction_params = k; pred = KalmanOk(k); }
  if (kind == 2) p.prediction_params = DisabledPredictorParams{};
  Check("wobble smoother parameters", ValidateWobbleSmootherParams(p.wobble_smoother_params), WobbleOk(p.wobble_smoother_params));
  Check("position modeler parameters", ValidatePositionModelerParams(p.position_modeler_params), PositionOk(p.position_modeler_params));
  Check("sampling parameters", ValidateSamplingParams(p.sampling_params), SamplingOk(p.sampling_params));
  Check("stylus state modeler parameters", ValidateStylusStateModelerParams(p.stylus_state_modeler_params), StylusOk(p.stylus_state_modeler_params));
  Check("prediction parameters", ValidatePredictionParams(p.prediction_params), pred);
  bool all = And(Or(!p.position_modeler_params.loop_contraction_mitigation_params.is_enabled, p.stylus_state_modeler_params.use_stroke_normal_projection),
                 WobbleOk(p.wobble_smoother_params), PositionOk(p.position_modeler_params), SamplingOk(p.sampling_params),
                 StylusOk(p.stylus_state_modeler_params), pred);
  absl::Status s = ValidateStrokeModelParams(p);
  Check("full parameter set", s, all);
  if (s.ok()) VC_COVER("accepted"); else VC_COVER("rejected");
}
