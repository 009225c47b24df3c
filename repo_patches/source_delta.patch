From 207ec8fb8860f883339154c0d71623191857a1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:08 +0000
Subject: [PATCH 1/7] fix: reject non-finite loop contraction mitigation
 parameters and NaN linearity confidence

---
 ink_stroke_modeler/params.cc | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/ink_stroke_modeler/params.cc b/ink_stroke_modeler/params.cc
index d1ca809..20499de 100644
--- a/ink_stroke_modeler/params.cc
+++ b/ink_stroke_modeler/params.cc
@@ -48,6 +48,25 @@ const Duration kMaxSamplingWindow = Duration(10000);
 absl::Status ValidateLoopContractionMitigationParameters(
     const PositionModelerParams::LoopContractionMitigationParameters& params) {
   if (!params.is_enabled) return absl::OkStatus();
+
+  RETURN_IF_ERROR(ValidateIsFiniteNumber(
+      params.speed_lower_bound,
+      "LoopContractionMitigationParameters::speed_lower_bound"));
+  RETURN_IF_ERROR(ValidateIsFiniteNumber(
+      params.speed_upper_bound,
+      "LoopContractionMitigationParameters::speed_upper_bound"));
+  RETURN_IF_ERROR(ValidateIsFiniteNumber(
+      params.interpolation_strength_at_speed_lower_bound,
+      "LoopContractionMitigationParameters::interpolation_strength_at_speed_"
+      "lower_bound"));
+  RETURN_IF_ERROR(ValidateIsFiniteNumber(
+      params.interpolation_strength_at_speed_upper_bound,
+      "LoopContractionMitigationParameters::interpolation_strength_at_speed_"
+      "upper_bound"));
+  RETURN_IF_ERROR(ValidateIsFiniteNumber(
+      params.min_speed_sampling_window.Value(),
+      "LoopContractionMitigationParameters::min_speed_sampling_window"));
+
   if (params.speed_lower_bound > params.speed_upper_bound ||
       params.speed_lower_bound < 0) {
     return absl::InvalidArgumentError(absl::Substitute(
@@ -223,6 +242,10 @@ absl::Status ValidateKalmanPredictorParams(
   RETURN_IF_ERROR(ValidateGreaterThanZero(
       confidence_params.max_linear_deviation,
       "KalmanPredictorParams::ConfidenceParams::max_linear_deviation"));
+  RETURN_IF_ERROR(ValidateIsFiniteNumber(
+      confidence_params.baseline_linearity_confidence,
+      "KalmanPredictorParams::ConfidenceParams::baseline_linearity_"
+      "confidence"));
   if (confidence_params.baseline_linearity_confidence < 0 ||
       confidence_params.baseline_linearity_confidence > 1) {
     return absl::InvalidArgumentError(absl::Substitute(
-- 
2.43.0


From 6b1995ddf9980f17cc669c9b31acdb8289d87cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:08 +0000
Subject: [PATCH 2/7] fix: leave the modeler untouched when a move event is
 rejected

ProcessMoveEvent updated the wobble smoother and the stylus state modeler
before computing the number of steps, so a move rejected because it was too
far from the previous input still changed the rest of the stroke.
---
 ink_stroke_modeler/stroke_modeler.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/ink_stroke_modeler/stroke_modeler.cc b/ink_stroke_modeler/stroke_modeler.cc
index e7d6e23..3808fa6 100644
--- a/ink_stroke_modeler/stroke_modeler.cc
+++ b/ink_stroke_modeler/stroke_modeler.cc
@@ -285,6 +285,14 @@ absl::Status StrokeModeler::ProcessMoveEvent(const Input &input,
         "Received move event while no stroke is in-progress");
   }
 
+  absl::StatusOr<int> n_steps = NumberOfStepsBetweenInputs(
+      position_modeler_.CurrentState(), last_input_->input, input,
+      stroke_model_params_->sampling_params,
+      stroke_model_params_->position_modeler_params);
+  if (!n_steps.ok()) {
+    return n_steps.status();
+  }
+
   Vec2 corrected_position = wobble_smoother_.Update(input.position, input.time);
   stylus_state_modeler_.Update(corrected_position, input.time,
                                {
@@ -293,13 +301,6 @@ absl::Status StrokeModeler::ProcessMoveEvent(const Input &input,
                                    .orientation = input.orientation,
                                });
 
-  absl::StatusOr<int> n_steps = NumberOfStepsBetweenInputs(
-      position_modeler_.CurrentState(), last_input_->input, input,
-      stroke_model_params_->sampling_params,
-      stroke_model_params_->position_modeler_params);
-  if (!n_steps.ok()) {
-    return n_steps.status();
-  }
   tip_state_buffer_.clear();
   tip_state_buffer_.reserve(*n_steps);
   position_modeler_.UpdateAlongLinearPath(
-- 
2.43.0


From f2ddfcc6481034f38b3e284754ae40cd02f56534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:08 +0000
Subject: [PATCH 3/7] fix: do not restore a predictor saved under earlier
 parameters

Save() kept the predictor of an older save when prediction is disabled, so a
later Restore() re-enabled prediction with that predictor.
---
 ink_stroke_modeler/stroke_modeler.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ink_stroke_modeler/stroke_modeler.cc b/ink_stroke_modeler/stroke_modeler.cc
index 3808fa6..ac8a12d 100644
--- a/ink_stroke_modeler/stroke_modeler.cc
+++ b/ink_stroke_modeler/stroke_modeler.cc
@@ -324,9 +324,7 @@ void StrokeModeler::Save() {
   stylus_state_modeler_.Save();
   loop_contraction_mitigation_modeler_.Save();
   saved_last_input_ = last_input_;
-  if (predictor_ != nullptr) {
-    saved_predictor_ = predictor_->MakeCopy();
-  }
+  saved_predictor_ = predictor_ != nullptr ? predictor_->MakeCopy() : nullptr;
   save_active_ = true;
 }
 
-- 
2.43.0


From 4ab49777f42831744db0c7b2844eb1b1b9c957f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:08 +0000
Subject: [PATCH 4/7] fix: drop a state saved during a previous stroke when a
 new one starts

The sub-modelers discard their saved state on a down event, but the modeler
itself kept its own, so Restore() in the next stroke brought back the last
input of the previous stroke on top of the state of the current one.
---
 ink_stroke_modeler/stroke_modeler.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ink_stroke_modeler/stroke_modeler.cc b/ink_stroke_modeler/stroke_modeler.cc
index ac8a12d..edf2bca 100644
--- a/ink_stroke_modeler/stroke_modeler.cc
+++ b/ink_stroke_modeler/stroke_modeler.cc
@@ -192,6 +192,9 @@ absl::Status StrokeModeler::ProcessDownEvent(const Input &input,
         "Received down event while stroke is in-progress");
   }
 
+  // A state saved during a previous stroke does not apply to this one.
+  if (saved_last_input_.has_value()) save_active_ = false;
+
   // Note that many of the sub-modelers require some knowledge about the stroke
   // (e.g. start position, input type) when resetting, and as such are reset
   // here instead of in Reset().
-- 
2.43.0


From db2302ae382862d5af3226b4e390ff9cfdd4073a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:09 +0000
Subject: [PATCH 5/7] fix: terminate when interpolating very large or infinite
 angles

Inputs with an enormous orientation made InterpAngle loop forever, because
subtracting a turn from such a value does not change it.
---
 ink_stroke_modeler/internal/utils.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ink_stroke_modeler/internal/utils.h b/ink_stroke_modeler/internal/utils.h
index c636e09..a14266e 100644
--- a/ink_stroke_modeler/internal/utils.h
+++ b/ink_stroke_modeler/internal/utils.h
@@ -18,6 +18,7 @@
 #define INK_STROKE_MODELER_INTERNAL_UTILS_H_
 
 #include <algorithm>
+#include <cmath>
 #include <optional>
 
 #include "ink_stroke_modeler/internal/internal_types.h"
@@ -66,6 +67,9 @@ inline float InverseLerp(float a, float b, float value) {
 // interval [0, 2π). All angles are measured in radians.
 inline float InterpAngle(float start, float end, float interp_amount) {
   auto normalize_angle = [](float angle) {
+    // Bring the angle to within one turn of the interval first, because adding
+    // or subtracting a turn does not change the value of a very large angle.
+    angle = std::fmod(angle, 2 * kPi);
     while (angle < 0) angle += 2 * kPi;
     while (angle > 2 * kPi) angle -= 2 * kPi;
     return angle;
-- 
2.43.0


From aef261201669cc56dae297ee2a3c2681d8264566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:50 +0000
Subject: [PATCH 6/7] fix: apply max_outputs_per_call to the end of the stroke

The iterations that model the end of the stroke, on an up event and in the
stroke-end prediction, were not counted against max_outputs_per_call.
---
 .../internal/prediction/stroke_end_predictor.cc           | 8 ++++++--
 ink_stroke_modeler/stroke_modeler.cc                      | 7 ++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/ink_stroke_modeler/internal/prediction/stroke_end_predictor.cc b/ink_stroke_modeler/internal/prediction/stroke_end_predictor.cc
index aedde93..fc384e1 100644
--- a/ink_stroke_modeler/internal/prediction/stroke_end_predictor.cc
+++ b/ink_stroke_modeler/internal/prediction/stroke_end_predictor.cc
@@ -14,6 +14,7 @@
 
 #include "ink_stroke_modeler/internal/prediction/stroke_end_predictor.h"
 
+#include <algorithm>
 #include <iterator>
 #include <optional>
 #include <vector>
@@ -37,12 +38,15 @@ void StrokeEndPredictor::ConstructPrediction(
     return;
   }
 
-  prediction.reserve(sampling_params_.end_of_stroke_max_iterations);
+  const int max_iterations =
+      std::min(sampling_params_.end_of_stroke_max_iterations,
+               sampling_params_.max_outputs_per_call);
+  prediction.reserve(max_iterations);
   PositionModeler modeler;
   modeler.Reset(last_state, position_modeler_params_);
   modeler.ModelEndOfStroke(*last_position_,
                            Duration(1. / sampling_params_.min_output_rate),
-                           sampling_params_.end_of_stroke_max_iterations,
+                           max_iterations,
                            sampling_params_.end_of_stroke_stopping_distance,
                            std::back_inserter(prediction));
 }
diff --git a/ink_stroke_modeler/stroke_modeler.cc b/ink_stroke_modeler/stroke_modeler.cc
index edf2bca..aae1a70 100644
--- a/ink_stroke_modeler/stroke_modeler.cc
+++ b/ink_stroke_modeler/stroke_modeler.cc
@@ -14,6 +14,7 @@
 
 #include "ink_stroke_modeler/stroke_modeler.h"
 
+#include <algorithm>
 #include <cstddef>
 #include <cstdlib>
 #include <iterator>
@@ -257,7 +258,11 @@ absl::Status StrokeModeler::ProcessUpEvent(const Input &input,
   position_modeler_.ModelEndOfStroke(
       input.position,
       Duration(1. / stroke_model_params_->sampling_params.min_output_rate),
-      stroke_model_params_->sampling_params.end_of_stroke_max_iterations,
+      // The end of the stroke must not exceed the limit on outputs per call.
+      std::min(
+          stroke_model_params_->sampling_params.end_of_stroke_max_iterations,
+          stroke_model_params_->sampling_params.max_outputs_per_call -
+              *n_steps),
       stroke_model_params_->sampling_params.end_of_stroke_stopping_distance,
       std::back_inserter(tip_state_buffer_));
 
-- 
2.43.0


From a1b8248ffb30992acf80eea41015ea5a9eaa9f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:25 +0000
Subject: [PATCH 7/7] fix: bound the length of a Kalman prediction by
 max_outputs_per_call

The number of points was converted to int without a bound, which is undefined
for large values, and could exceed max_outputs_per_call.
---
 .../internal/prediction/kalman_predictor.cc   | 29 ++++++++++++-------
 .../internal/prediction/kalman_predictor.h    |  2 +-
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/ink_stroke_modeler/internal/prediction/kalman_predictor.cc b/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
index 6bad195..d6dd9ef 100644
--- a/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
+++ b/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
@@ -117,12 +117,16 @@ void KalmanPredictor::ConstructPrediction(
 
   Duration sample_dt{1. / sampling_params_.min_output_rate};
   ConstructCubicConnector(last_state, *estimated_state, predictor_params_,
-                          sample_dt, &prediction);
+                          sample_dt, sampling_params_.max_outputs_per_call,
+                          &prediction);
   auto start_time =
       prediction.empty() ? last_state.time : prediction.back().time;
-  ConstructCubicPrediction(*estimated_state, predictor_params_, start_time,
-                           sample_dt, NumberOfPointsToPredict(*estimated_state),
-                           &prediction);
+  const int max_points = sampling_params_.max_outputs_per_call -
+                         static_cast<int>(prediction.size());
+  ConstructCubicPrediction(
+      *estimated_state, predictor_params_, start_time, sample_dt,
+      std::min(NumberOfPointsToPredict(*estimated_state), max_points),
+      &prediction);
 }
 
 void KalmanPredictor::ConstructCubicPrediction(
@@ -146,7 +150,7 @@ void KalmanPredictor::ConstructCubicPrediction(
 
 void KalmanPredictor::ConstructCubicConnector(
     const TipState &last_tip_state, const State &estimated_state,
-    const KalmanPredictorParams &params, Duration sample_dt,
+    const KalmanPredictorParams &params, Duration sample_dt, int max_points,
     std::vector<TipState> *output) {
   // Estimate how long it will take for the tip to travel from its last position
   // to the estimated position, based on the start and end velocities. We define
@@ -161,10 +165,13 @@ void KalmanPredictor::ConstructCubicConnector(
       std::max(max_velocity_at_ends, params.min_catchup_velocity)};
 
   // Determine how many samples this will give us, ensuring that there's always
-  // at least one. Then, pick a duration that's a multiple of the sample dt.
-  int n_points = std::fmax(std::ceil(static_cast<float>(
-                               target_duration.Value() / sample_dt.Value())),
-                           1.f);
+  // at least one, and no more than the limit on outputs per call. Then, pick a
+  // duration that's a multiple of the sample dt.
+  int n_points = std::clamp<double>(
+      std::fmax(std::ceil(static_cast<float>(target_duration.Value() /
+                                             sample_dt.Value())),
+                1.f),
+      1, max_points);
   Duration duration = n_points * sample_dt;
 
   // We want to construct a cubic curve connecting the last tip state and the
@@ -279,7 +286,9 @@ int KalmanPredictor::NumberOfPointsToPredict(
 
   auto confidence =
       sample_ratio * normalized_error * normalized_distance * linearity;
-  return std::fmax(0.f, std::ceil(target_number * confidence));
+  return std::fmin(
+      std::fmax(0.f, std::ceil(target_number * confidence)),
+      static_cast<double>(sampling_params_.max_outputs_per_call));
 }
 
 }  // namespace stroke_model
diff --git a/ink_stroke_modeler/internal/prediction/kalman_predictor.h b/ink_stroke_modeler/internal/prediction/kalman_predictor.h
index 76048ef..729b6a8 100644
--- a/ink_stroke_modeler/internal/prediction/kalman_predictor.h
+++ b/ink_stroke_modeler/internal/prediction/kalman_predictor.h
@@ -81,7 +81,7 @@ class KalmanPredictor : public InputPredictor {
   static void ConstructCubicConnector(const TipState &last_tip_state,
                                       const State &estimated_state,
                                       const KalmanPredictorParams &params,
-                                      Duration sample_dt,
+                                      Duration sample_dt, int max_points,
                                       std::vector<TipState> *output);
 
   static void ConstructCubicPrediction(const State &estimated_state,
-- 
2.43.0

