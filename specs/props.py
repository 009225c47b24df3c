"""The properties, as published in properties.jsonl."""
R = 'ink_stroke_modeler/'
I = R + 'internal/'
P = I + 'prediction/'
SM = R + 'stroke_modeler.cc'
NOT_CLAIMED = {}
PROPS = [
 dict(id='C01', title='Parameters are accepted exactly when they satisfy the documented constraints',
  statement='A set of model parameters is accepted if and only if every documented constraint on it holds: finite and positive (or non-negative) where required, ordered ranges ordered, strengths and confidences within [0, 1], the angle limit either disabled or in (0, pi), and loop mitigation only together with projection along the stroke normal. Parameters of a stage that is switched off are ignored, and a refusal is always reported as an invalid argument.',
  over=['inputs', 'configurations'], text='every combination of parameter values, including NaN, infinities, negative zero and integer extremes',
  why='Tests try one bad value per field; they cannot settle that no combination of good-looking or special values slips through, nor that no legal combination is refused.',
  files=[R + 'params.cc', R + 'params.h', I + 'validation.h'],
  mech=[('parameter validation', R + 'params.cc: ValidateStrokeModelParams and the per-struct validators'), ('numeric predicates', I + 'validation.h')],
  note='Exact characterisation proved for all bit patterns of every field.'),
 dict(id='C02', title='A refused reset changes nothing; an accepted reset clears stroke and saved state',
  statement='If resetting with new parameters is refused, the modeler continues exactly as if the call had not been made. An accepted reset, with or without new parameters, discards the stroke in progress and any saved state; resetting without parameters before the first initialisation is refused as a failed precondition.',
  over=['histories', 'inputs', 'configurations'], text='every state of the modeler and every parameter set',
  why='A test resets from a few states and looks at the next result; it cannot show that no part of any reachable state leaks through or is lost.',
  files=[SM, R + 'stroke_modeler.h', R + 'params.cc'],
  mech=[('reset', SM + ': StrokeModeler::Reset (both overloads), ResetInternal')],
  note='Proved over arbitrary modeler states: frame condition on refusal, postcondition on success.'),
 dict(id='C03', title='The input stream protocol is enforced with the documented errors',
  statement='An update succeeds only if the modeler is initialised, the input has a valid event type and finite position and time, and it continues the stream: down only when no stroke is in progress, move and up only during one, never earlier than the previous input of the stroke and never identical to it. Every violation is reported as an error, with failed precondition for an uninitialised modeler and for out-of-order event kinds and invalid argument for malformed, duplicate, or backward-in-time inputs; predictions are refused with failed precondition when the modeler is uninitialised, prediction is disabled or no stroke is in progress. A stroke is in progress exactly from an accepted down until an accepted up or a reset.',
  over=['histories', 'inputs'], text='every sequence of calls and every input value',
  why='The protocol is a state machine over unbounded histories and all float values; tests follow a few scripted strokes.',
  files=[SM, R + 'types.cc', R + 'types.h', I + 'validation.h'],
  mech=[('update', SM + ': StrokeModeler::Update, ProcessDownEvent, ProcessMoveEvent, ProcessUpEvent'), ('prediction', SM + ': StrokeModeler::Predict'), ('input validation', R + 'types.cc: ValidateInput')],
  note='Status of every call proved as a function of state and input, for arbitrary states.'),
 dict(id='C04', title='A rejected update leaves no trace',
  statement='When an update is rejected for any reason, the results passed in are unmodified and all later behaviour of the modeler, including predictions, saved state and results of further updates, is the same as if the rejected input had never been sent.',
  over=['histories', 'inputs'], text='every state, every rejected input and every continuation',
  why='It needs a comparison of every later behaviour with and without the rejected call, for every kind of rejection.',
  files=[SM], mech=[('update', SM + ': StrokeModeler::Update and the Process*Event functions'), ('step budget', I + 'position_modeler.cc: NumberOfStepsBetweenInputs')],
  note='Frame condition over the whole object, proved for arbitrary states.'),
 dict(id='C05', title='Updates only append results; predictions replace them',
  statement='An update never removes, reorders or modifies results already in the list it is given, whatever they are; it only appends. A prediction discards whatever the list held, and leaves it empty when it returns an error.',
  over=['inputs', 'histories'], text='every previous content of the list, every state and input',
  why='Tests mostly start with empty lists and a few results.',
  files=[SM, I + 'position_modeler.h'], mech=[('update and prediction', SM + ': Update, Predict, ModelStylus'), ('resampling output', I + 'position_modeler.h: UpdateAlongLinearPath, ModelEndOfStroke')],
  note='Prefix preservation proved for lists of any length.'),
 dict(id='C06', title='A down event yields exactly one result that echoes the input',
  statement='An accepted down event appends exactly one result, with the position, time, pressure, tilt and orientation of the input and zero velocity and acceleration, regardless of anything that happened before.',
  over=['inputs', 'histories'], text='every input and every earlier history and parameter set',
  why='Tests use a handful of down events from a fresh modeler.',
  files=[SM], mech=[('down event', SM + ': StrokeModeler::ProcessDownEvent')],
  note='Proved for arbitrary prior states.'),
 dict(id='C07', title='The number of results follows the output rate and never exceeds the limit',
  statement='A move yields the smallest number of results that meets both the minimum output rate over the time since the previous input and, when enabled, the limit on the estimated change of direction per step; if that exceeds the maximum number of outputs per call, the input is refused. No update or prediction ever produces more than the maximum number of outputs per call, and an accepted up event yields at least one.',
  over=['inputs', 'configurations', 'histories'], text='every state, input and valid parameter set',
  why='The limit has to hold for every timing, rate, angle and limit, including the boundary cases of rounding and of the integer range.',
  files=[I + 'position_modeler.cc', I + 'position_modeler.h', SM, P + 'kalman_predictor.cc', P + 'stroke_end_predictor.cc'],
  mech=[('number of steps', I + 'position_modeler.cc: NumberOfStepsBetweenInputs'), ('end of stroke', I + 'position_modeler.h: ModelEndOfStroke'), ('predictions', P + 'kalman_predictor.cc: ConstructPrediction')],
  note='Exact count and upper bounds proved over floating-point semantics.'),
 dict(id='C08', title='Result times never decrease and stay within the inputs\' time span',
  statement='Within one update or prediction the times of the results never decrease, and as long as the modelled velocities do not overflow, no result of a move or up event is earlier than the previous input of the stroke. Results of the resampled part of a move or up event lie between the previous and the current input time, up to one rounding.',
  over=['inputs', 'histories', 'configurations'], text='every pair of input times, every number of steps',
  why='Monotonicity under floating-point rounding cannot be sampled.',
  files=[I + 'position_modeler.h', I + 'utils.h', SM, P + 'kalman_predictor.cc'],
  mech=[('resampling', I + 'position_modeler.h: UpdateAlongLinearPath'), ('end of stroke', I + 'position_modeler.h: ModelEndOfStroke'), ('result times', SM + ': ModelStylus')],
  note='Proved with IEEE-754 monotonicity lemmas.'),
 dict(id='C09', title='Moves follow the spring-mass-drag recurrence along the linear path',
  statement='Between two inputs the tip follows, at n equally spaced anchor points and times ending at the new input, the recurrence: acceleration is (anchor - position) / spring constant - drag * velocity, then velocity and position advance by the elapsed time with the updated values, in single precision. Each state starts from the one before, and the final state is where the next input continues.',
  over=['inputs', 'histories', 'configurations'], text='every state, anchor, time, number of steps and parameter set',
  why='Golden values fix a few strokes to some tolerance; they do not settle the recurrence for other spacings, states or parameters.',
  files=[I + 'position_modeler.cc', I + 'position_modeler.h', SM], mech=[('one step', I + 'position_modeler.cc: PositionModeler::Update'), ('resampling', I + 'position_modeler.h: UpdateAlongLinearPath'), ('use', SM + ': ProcessMoveEvent, ProcessUpEvent')],
  note='Bit-exact functional contract for any number of steps (loop invariant over a ghost sequence).'),
 dict(id='C10', title='The end of a stroke catches up with the final input and stops as documented',
  statement='At the end of a stroke the tip is stepped towards the final input with a time step of one output interval; a step that would pass the point nearest to the final input is discarded and the time step halved. It stops when the allowed iterations (discarded ones included) are used up, when a step moves less than the stopping distance (that step is not output), or after outputting a step within the stopping distance of the final input; if the stroke would otherwise produce nothing, its current state is output once.',
  over=['inputs', 'histories', 'configurations'], text='every state, final input, step, iteration limit and stopping distance',
  why='Which of the three exits is taken, and after how many halvings, depends on the numbers; tests see a few.',
  files=[I + 'position_modeler.h', I + 'utils.h', SM], mech=[('catching up', I + 'position_modeler.h: ModelEndOfStroke'), ('nearest point', I + 'utils.h: NearestPointOnSegment'), ('up event', SM + ': ProcessUpEvent')],
  note='Full functional contract with a ghost sequence of attempts, for any number of iterations.'),
 dict(id='C11', title='Wobble smoothing blends towards the windowed average by speed',
  statement='When enabled, smoothing replaces the position of a move by a blend of the duration-weighted average of the positions received within the timeout and the raw position, using only the average speed over that window: the average itself at or below the speed floor, the raw position at or above the ceiling, linear in between. When disabled, or while the window has no duration, positions pass through unchanged; down and up events are never smoothed.',
  over=['inputs', 'histories', 'configurations'], text='every window content, input and parameter set',
  why='The running sums and the sliding window depend on the whole history of a stroke.',
  files=[I + 'wobble_smoother.cc', I + 'wobble_smoother.h', I + 'utils.h', SM], mech=[('smoothing', I + 'wobble_smoother.cc: WobbleSmoother::Update'), ('blend', I + 'utils.h: Interp, Normalize01')],
  note='One-step contract from an arbitrary window; the window invariant is inductive.'),
 dict(id='C12', title='Missing stylus fields are reported as missing for the rest of the stroke',
  statement='Once an input of a stroke has a negative or NaN pressure, tilt or orientation, that field is exactly -1 in every result of that and later moves and of the up event, and in predictions, until the stroke ends; the other fields are unaffected. A field that was given in every input of the stroke is never reported as missing, and a new stroke starts with nothing missing.',
  over=['inputs', 'histories'], text='every pattern of missing fields over any number of inputs',
  why='The patterns and orders of missing fields across a stroke are unbounded.',
  files=[I + 'stylus_state_modeler.cc', I + 'utils.cc', SM], mech=[('tracking', I + 'stylus_state_modeler.cc: Update, Query'), ('interpolation', I + 'utils.cc: InterpResult')],
  note='Sticky flags proved by Update/Query contracts over arbitrary retained inputs.'),
 dict(id='C13', title='Stylus values are interpolated at the projection onto the recent raw inputs',
  statement='Pressure and tilt of a result are the linear interpolation of the raw inputs at the projection of the tip onto the polyline of retained inputs: the nearest point of the polyline (the latest among equally near segments), or, when projection along the stroke normal is enabled and a normal exists, the nearest crossing of the normal on its side, on the outer side of the turn when both sides have one. If there is no projection the nearer of the first and last retained input is used.',
  over=['inputs', 'histories', 'configurations'], text='every polyline of any length, tip state and normal',
  why='The choice is a minimum over an unbounded list with ties, degenerate segments and parallel normals.',
  files=[I + 'stylus_state_modeler.cc', I + 'utils.cc', I + 'utils.h'], mech=[('projection', I + 'stylus_state_modeler.cc: ProjectToClosestPoint, ProjectAlongStrokeNormal, Query'), ('normal', I + 'utils.cc: GetStrokeNormal, ProjectToSegmentAlongNormal')],
  note='Minimality proved with loop invariants for polylines of any length.'),
 dict(id='C14', title='Orientation is interpolated along the shorter arc and stays in [0, 2 pi)',
  statement='Interpolating two finite orientations always terminates and yields an angle in [0, 2 pi), on the shorter of the two arcs between them, at the given fraction of that arc clamped to [0, 1]. This holds however large the given angles are.',
  over=['inputs'], text='every pair of angles and every fraction',
  why='Wrap-around and rounding at the ends of the range are corner cases of a continuous domain.',
  files=[I + 'utils.h', I + 'utils.cc'], mech=[('angle interpolation', I + 'utils.h: InterpAngle'), ('results', I + 'utils.cc: InterpResult')],
  note='Proved over IEEE-754 semantics for all inputs.'),
 dict(id='C15', title='Retained history is exactly the documented window',
  statement='The raw inputs retained for stylus values are the most recent ones: at most the maximum number of samples, or, with projection along the normal, the shortest suffix that has at least the minimum number of samples and spans more than the minimum duration (everything while there is no such suffix). Speed samples, smoothing samples and timestamps kept for predictions are likewise limited to the most recent ones by their documented windows, so memory does not grow with the length of the stroke beyond those windows.',
  over=['inputs', 'histories', 'configurations'], text='every history of inputs and every window parameter',
  why='Windows only fill after long histories with particular timings.',
  files=[I + 'stylus_state_modeler.cc', I + 'loop_contraction_mitigation_modeler.cc', I + 'wobble_smoother.cc', P + 'kalman_predictor.cc'],
  mech=[('stylus window', I + 'stylus_state_modeler.cc: Update'), ('speed window', I + 'loop_contraction_mitigation_modeler.cc: Update'), ('smoothing window', I + 'wobble_smoother.cc: Update'), ('timestamps', P + 'kalman_predictor.cc: Update')],
  note='One-step contracts from arbitrary windows: content is the old content plus the new sample minus a prefix, minimal under the documented condition.'),
 dict(id='C16', title='Loop mitigation blends by average speed within the configured strengths',
  statement='With loop mitigation enabled each result is the blend of the projected raw input and the modelled tip with a strength that is the configured linear function of the average of the retained result speeds, constant outside the speed bounds, and hence, up to rounding, always between the two configured strengths; the first result of a stroke after the down event uses the tip unchanged. With mitigation disabled, position, velocity and acceleration of every result are those of the modelled tip.',
  over=['inputs', 'histories', 'configurations'], text='every set of speed samples and every valid parameter set',
  why='The strength depends on all retained samples and on rounding at the ends of the range.',
  files=[I + 'loop_contraction_mitigation_modeler.cc', SM, I + 'utils.h'], mech=[('strength', I + 'loop_contraction_mitigation_modeler.cc: GetInterpolationValue, Update'), ('blend', SM + ': ModelStylus')],
  note='Sum and average as a ghost fold over any number of samples; range by monotonicity lemmas.'),
 dict(id='C17', title='Restore returns to the saved state exactly, any number of times',
  statement='After a save, any number of updates and predictions followed by a restore leave the modeler behaving exactly as at the time of the save, and the saved state survives to be restored again. A restore does nothing if no state has been saved for this stroke: an accepted reset, or a new stroke, discards a state saved during an earlier stroke.',
  over=['histories', 'inputs'], text='every state, every sequence of calls between save and restore',
  why='The comparison is over all later behaviour after arbitrary intervening calls.',
  files=[SM, I + 'wobble_smoother.cc', I + 'stylus_state_modeler.cc', I + 'loop_contraction_mitigation_modeler.cc', I + 'position_modeler.h', P + 'input_predictor.h'],
  mech=[('save and restore', SM + ': StrokeModeler::Save, Restore'), ('parts', 'Save and Restore of the sub-modelers; InputPredictor::MakeCopy')],
  note='Save copies, updates frame the copy, restore copies back: three contracts over arbitrary states.'),
 dict(id='C18', title='Predicting never changes the modeler',
  statement='A prediction has no effect on any later update, prediction, save or restore, whether it succeeds or fails, and repeating it gives the same results.',
  over=['histories', 'inputs'], text='every state and every continuation',
  why='It quantifies over all later behaviour; constness in the interface does not cover mutable buffers and shared objects.',
  files=[SM, P + 'kalman_predictor.cc', P + 'stroke_end_predictor.cc'], mech=[('prediction', SM + ': StrokeModeler::Predict'), ('predictors', P + '*_predictor.cc: ConstructPrediction')],
  note='Frame condition over the whole object, except the scratch buffer, which is proved dead.'),
 dict(id='C19', title='Strokes are independent of each other and of anything before the reset',
  statement='The results and predictions of a stroke depend only on the parameters last accepted and on the calls made since its down event, not on earlier strokes, earlier parameters, rejected inputs, or how the earlier stroke ended.',
  over=['histories', 'configurations'], text='every pair of earlier histories',
  why='Leaks of old state show only for particular earlier histories.',
  files=[SM, I + 'wobble_smoother.cc', I + 'stylus_state_modeler.cc', I + 'loop_contraction_mitigation_modeler.cc', I + 'position_modeler.h', P + 'kalman_predictor.cc', P + 'stroke_end_predictor.h'],
  mech=[('down event', SM + ': ProcessDownEvent and the Reset of each sub-modeler and predictor')],
  note='Self-composition: two modelers in arbitrary, different states with the same parameters are in the same state after the same down event.'),
 dict(id='C20', title='A Kalman prediction is the cubic connector followed by the cubic extrapolation',
  statement='Once enough inputs have been received, a Kalman prediction first connects the tip to the estimated state by the cubic with matching positions and velocities at both ends, in steps of the output interval, and then extends it by evaluating the cubic motion of the estimate step by step. The extension has at most the number of points of the prediction interval scaled by the product of the confidences, each between 0 and 1; with too few inputs the prediction is empty.',
  over=['inputs', 'histories', 'configurations'], text='every tip state, estimate, number of points and parameter set',
  why='The polynomial has to hold at every sample of every prediction; tests check some values to a tolerance.',
  files=[P + 'kalman_predictor.cc', P + 'kalman_predictor.h'], mech=[('prediction', P + 'kalman_predictor.cc: ConstructPrediction, ConstructCubicConnector, ConstructCubicPrediction, NumberOfPointsToPredict, GetEstimatedState')],
  note='Functional contracts with loop invariants for any number of points.'),
 dict(id='C21', title='The motion estimate is the Kalman filter of the received positions',
  statement='Each coordinate of the estimate is the state of a linear Kalman filter with constant-jerk motion, unit time step, force-like process noise and position-only measurement: prediction, gain and Joseph-form covariance update for every position after the first, which only sets the position. Velocity, acceleration and jerk are rescaled by the powers of the average time between the retained timestamps.',
  over=['inputs', 'histories', 'configurations'], text='every filter state, observation and noise parameter',
  why='The matrix equations have to hold from every state, not just from the one a test starts in.',
  files=[P + 'kalman_filter/kalman_filter.cc', P + 'kalman_filter/axis_predictor.cc', P + 'kalman_filter/matrix.h', P + 'kalman_predictor.cc'],
  mech=[('filter', P + 'kalman_filter/kalman_filter.cc: Update, Predict'), ('model', P + 'kalman_filter/axis_predictor.cc: MakeKalmanFilter'), ('matrices', P + 'kalman_filter/matrix.h'), ('rescaling', P + 'kalman_predictor.cc: GetEstimatedState')],
  note='Matrix equations proved from arbitrary filter states.'),
 dict(id='C22', title='A stroke-end prediction is what lifting the pen now would add',
  statement='With the stroke-end strategy a prediction has exactly the tip states that catching up with the last received position would produce at the end of the stroke, from the current tip, with the same parameters and stopping rules.',
  over=['inputs', 'histories', 'configurations'], text='every state and parameter set',
  why='It relates two code paths for all states.',
  files=[P + 'stroke_end_predictor.cc', I + 'position_modeler.h', SM], mech=[('prediction', P + 'stroke_end_predictor.cc: ConstructPrediction'), ('end of stroke', I + 'position_modeler.h: ModelEndOfStroke')],
  note='Same ghost contract as the end of a stroke, for any number of iterations.'),
 dict(id='C23', title='No call has undefined behaviour, crashes or hangs',
  statement='For every valid parameter set and every sequence of calls with any input values, every call returns: no access outside a container, no conversion of an unrepresentable floating-point value, no signed overflow, no use of an absent value, no unbounded loop. This includes NaN, infinite and extreme values in every field.',
  over=['inputs', 'histories', 'configurations'], text='every state, input and valid parameter set',
  why='Undefined behaviour hides in extreme values that no test enumerates.',
  files=[SM, I + 'position_modeler.cc', I + 'position_modeler.h', I + 'utils.h', I + 'utils.cc', I + 'stylus_state_modeler.cc', I + 'wobble_smoother.cc', P + 'kalman_predictor.cc'],
  mech=[('all of the above', 'every function under contract: safety and termination obligations of each harness')],
  note='Safety and termination obligations of every function under contract.'),
]
