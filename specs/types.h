// Arbitrary values and equality for the library's types.
#ifndef VC_TYPES_H_
#define VC_TYPES_H_
#include "vc.h"
#include "ink_stroke_modeler/internal/internal_types.h"
#include "ink_stroke_modeler/params.h"
#include "ink_stroke_modeler/types.h"
namespace ink::stroke_model {   // found by argument-dependent lookup
using vc::Any;
using vc::And;
using vc::Same;
inline void Any(Vec2& v) { Any(v.x); Any(v.y); }
inline void Any(Time& t) { double d; Any(d); t = Time(d); }
inline void Any(Duration& t) { double d; Any(d); t = Duration(d); }
inline void Any(TipState& s) { Any(s.position); Any(s.velocity); Any(s.acceleration); Any(s.time); }
inline void Any(StylusState& s) { Any(s.pressure); Any(s.tilt); Any(s.orientation); }
inline void Any(Result& r) {
  Any(r.position); Any(r.velocity); Any(r.acceleration); Any(r.time);
  Any(r.pressure); Any(r.tilt); Any(r.orientation);
}
inline void Any(Input& i) {
  int e; Any(e); i.event_type = static_cast<Input::EventType>(e);
  Any(i.position); Any(i.time); Any(i.pressure); Any(i.tilt); Any(i.orientation);
}
inline void Any(PositionModelerParams::LoopContractionMitigationParameters& p) {
  Any(p.is_enabled); Any(p.speed_lower_bound); Any(p.speed_upper_bound);
  Any(p.interpolation_strength_at_speed_lower_bound); Any(p.interpolation_strength_at_speed_upper_bound);
  Any(p.min_speed_sampling_window); Any(p.min_discrete_speed_samples);
}
inline void Any(PositionModelerParams& p) {
  Any(p.spring_mass_constant); Any(p.drag_constant); Any(p.loop_contraction_mitigation_params);
}
inline void Any(SamplingParams& p) {
  Any(p.min_output_rate); Any(p.end_of_stroke_stopping_distance); Any(p.end_of_stroke_max_iterations);
  Any(p.max_outputs_per_call); Any(p.max_estimated_angle_to_traverse_per_input);
}
inline void Any(StylusStateModelerParams& p) {
  Any(p.max_input_samples); Any(p.use_stroke_normal_projection); Any(p.min_input_samples); Any(p.min_sample_duration);
}
inline void Any(WobbleSmootherParams& p) {
  Any(p.is_enabled); Any(p.timeout); Any(p.speed_floor); Any(p.speed_ceiling);
}
inline void Any(KalmanPredictorParams& p) {
  Any(p.process_noise); Any(p.measurement_noise); Any(p.min_stable_iteration); Any(p.max_time_samples);
  Any(p.min_catchup_velocity); Any(p.acceleration_weight); Any(p.jerk_weight); Any(p.prediction_interval);
  auto& c = p.confidence_params;
  Any(c.desired_number_of_samples); Any(c.max_estimation_distance); Any(c.min_travel_speed); Any(c.max_travel_speed);
  Any(c.max_linear_deviation); Any(c.baseline_linearity_confidence);
}

inline bool Same(Vec2 a, Vec2 b) { return And(Same(a.x, b.x), Same(a.y, b.y)); }
inline bool Same(Time a, Time b) { return Same(a.Value(), b.Value()); }
inline bool Same(Duration a, Duration b) { return Same(a.Value(), b.Value()); }
inline bool Same(const TipState& a, const TipState& b) {
  return And(Same(a.position, b.position), Same(a.velocity, b.velocity), Same(a.acceleration, b.acceleration), Same(a.time, b.time));
}
inline bool Same(const Result& a, const Result& b) {
  return And(Same(a.position, b.position), Same(a.velocity, b.velocity), Same(a.acceleration, b.acceleration), Same(a.time, b.time),
             Same(a.pressure, b.pressure), Same(a.tilt, b.tilt), Same(a.orientation, b.orientation));
}
inline bool Same(const Input& a, const Input& b) {
  return And(a.event_type == b.event_type, Same(a.position, b.position), Same(a.time, b.time),
             Same(a.pressure, b.pressure), Same(a.tilt, b.tilt), Same(a.orientation, b.orientation));
}
inline bool Same(const PositionModelerParams::LoopContractionMitigationParameters& a, const PositionModelerParams::LoopContractionMitigationParameters& b) {
  return And(a.is_enabled == b.is_enabled, Same(a.speed_lower_bound, b.speed_lower_bound), Same(a.speed_upper_bound, b.speed_upper_bound),
             Same(a.interpolation_strength_at_speed_lower_bound, b.interpolation_strength_at_speed_lower_bound),
             Same(a.interpolation_strength_at_speed_upper_bound, b.interpolation_strength_at_speed_upper_bound),
             Same(a.min_speed_sampling_window, b.min_speed_sampling_window), a.min_discrete_speed_samples == b.min_discrete_speed_samples);
}
inline bool Same(const PositionModelerParams& a, const PositionModelerParams& b) {
  return And(Same(a.spring_mass_constant, b.spring_mass_constant), Same(a.drag_constant, b.drag_constant),
             Same(a.loop_contraction_mitigation_params, b.loop_contraction_mitigation_params));
}
inline bool Same(const SamplingParams& a, const SamplingParams& b) {
  return And(Same(a.min_output_rate, b.min_output_rate), Same(a.end_of_stroke_stopping_distance, b.end_of_stroke_stopping_distance),
             a.end_of_stroke_max_iterations == b.end_of_stroke_max_iterations, a.max_outputs_per_call == b.max_outputs_per_call,
             Same(a.max_estimated_angle_to_traverse_per_input, b.max_estimated_angle_to_traverse_per_input));
}
inline bool Same(const StylusStateModelerParams& a, const StylusStateModelerParams& b) {
  return And(a.max_input_samples == b.max_input_samples, a.use_stroke_normal_projection == b.use_stroke_normal_projection,
             a.min_input_samples == b.min_input_samples, Same(a.min_sample_duration, b.min_sample_duration));
}
inline bool Same(const WobbleSmootherParams& a, const WobbleSmootherParams& b) {
  return And(a.is_enabled == b.is_enabled, Same(a.timeout, b.timeout), Same(a.speed_floor, b.speed_floor), Same(a.speed_ceiling, b.speed_ceiling));
}
inline bool Same(const KalmanPredictorParams& a, const KalmanPredictorParams& b) {
  auto& c = a.confidence_params;
  auto& d = b.confidence_params;
  return And(Same(a.process_noise, b.process_noise), Same(a.measurement_noise, b.measurement_noise), a.min_stable_iteration == b.min_stable_iteration,
             a.max_time_samples == b.max_time_samples, Same(a.min_catchup_velocity, b.min_catchup_velocity), Same(a.acceleration_weight, b.acceleration_weight),
             Same(a.jerk_weight, b.jerk_weight), Same(a.prediction_interval, b.prediction_interval),
             c.desired_number_of_samples == d.desired_number_of_samples, Same(c.max_estimation_distance, d.max_estimation_distance),
             Same(c.min_travel_speed, d.min_travel_speed), Same(c.max_travel_speed, d.max_travel_speed),
             Same(c.max_linear_deviation, d.max_linear_deviation), Same(c.baseline_linearity_confidence, d.baseline_linearity_confidence));
}
}  // namespace ink::stroke_model
namespace vc {
using namespace ink::stroke_model;
// Calls that would produce 2^31 - 1 results are excluded (they need more than
// 100 GB); natively the search stays with small counts.
#ifdef VC_SYM
inline constexpr int kMaxSteps = 0x7fffffff;
#else
inline constexpr int kMaxSteps = 2000;
#endif
inline bool Fin(float x) { return std::fabs(x) <= std::numeric_limits<float>::max(); }
inline bool Fin(double x) { return std::fabs(x) <= std::numeric_limits<double>::max(); }
}  // namespace vc
#endif
