#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
CORE = "msf_core/include/msf_core/implementation/msf_core_inl.h"
MEAS = "msf_core/include/msf_core/implementation/msf_measurement_inl.h"
CONT = "msf_core/include/msf_core/msf_sortedContainer.h"
ST = "msf_core/include/msf_core/implementation/msf_state_inl.h"
TMP = "msf_core/include/msf_core/msf_tmp.h"
U = "msf_updates/include/msf_updates/"
T0 = ("The only stable test exercises the timer; the few core tests check compile-time template results. No test ever runs the "
      "filter on an input history. ")

prop("C01", "Filter lifecycle: nothing happens before init, warm-up, or after a reset",
 "Until an initialisation has completed, IMU samples and measurements have no effect at all, and after initialisation measurements are ignored (not queued) until IMU propagation has built up more than three buffered states. When an IMU sample goes back in time by more than 10 ms once measurements are being accepted, or a propagation step produces a non-finite position, the filter stops: every later input is ignored until it is initialised again.",
 ["histories", "inputs"], "For every history of initialisations, IMU samples (of any time stamp and value, including non-finite ones) and measurements.",
 T0 + "The gating is a property of all input orders.",
 [CORE], [("initialised / prediction-made flags checked at every entry point", CORE + ": ProcessIMU, AddMeasurement, ApplyCorrection"),
          ("backward-time and non-finite reset", CORE + ": ProcessIMU, PropagatePOneStep")],
 observe=["buffer look-ups by time", "sensor-manager callbacks"])
prop("C02", "Initialisation is a clean slate",
 "Initialising the filter discards every buffered state, every buffered measurement and every measurement waiting for future IMU data, and leaves exactly one state, at the initialisation time, holding exactly the supplied initial values and covariance (documented defaults for what was not supplied: zero values, identity attitude, the built-in covariance, zero sensor readings). What happens after an initialisation does not depend on anything received before it, except for the readings remembered to replace acceleration spikes.",
 ["histories", "inputs"], "For every history before the initialisation (including histories that ended in a reset) and every subset of supplied initial values.",
 T0 + "Left-over queues or caches show only for particular histories before a re-initialisation.",
 [CORE, MEAS, TMP], [("Init clears the buffers, the pending queue and the watchdog before applying the init measurement", CORE + ": Init"),
          ("init measurement copies only flagged values", MEAS + ": MSF_InitMeasurement::Apply")],
 observe=["buffer look-ups by time", "initial-state callback"])
prop("C03", "Delayed and out-of-order measurements give the in-order result, once each",
 "After any arrival order of IMU samples and measurements with distinct time stamps, the newest state is the one obtained by processing, in time-stamp order, all buffered IMU readings and every accepted measurement exactly once. In particular a late measurement rolls the estimate back, is applied at its own time, and all later measurements and the propagation are redone on top of it.",
 ["histories", "schedules"], "For every interleaving and delay pattern of IMU samples and measurements from several sensors (distinct time stamps; each pair of measurements associated with different buffered states).",
 T0 + "Needs every arrival order of several delayed measurements; a sample of orders cannot settle it.",
 [CORE, CONT], [("insert measurement, re-apply every later one, re-propagate between them", CORE + ": AddMeasurement"),
                ("state and covariance association", CORE + ": GetClosestState, PropPToState")],
 observe=["state values when each measurement is applied", "states by time", "after-update callback"])
prop("C04", "Measurements ahead of the IMU are held, never lost, never early",
 "A measurement stamped later than the newest buffered state is held back; it is not applied before a buffered state at or after its time exists, and it is then applied exactly once as long as IMU samples keep arriving. Held measurements are examined one per IMU sample in rotation, and holding a measurement does not delay or drop any other measurement.",
 ["histories", "schedules"], "For every sequence of early measurements, on-time measurements and IMU samples, with any number of held measurements.",
 T0 + "Loss or starvation needs specific interleavings of several early measurements and IMU samples.",
 [CORE], [("future queue, drained by one element per IMU sample and re-queued while still early", CORE + ": HandlePendingMeasurements, AddMeasurement")],
 observe=["order of measurement application", "states by time"])
prop("C05", "Measurements older than the buffered history are rejected without effect",
 "A measurement stamped before the oldest buffered state is rejected: it is never applied, now or later, changes no state or covariance and publishes nothing. A measurement is likewise never applied while no buffered state lies within 0.1 s of its time stamp.",
 ["histories", "inputs"], "For every history and every measurement time stamp relative to it, including the exact boundary and gaps in the IMU stream.",
 T0 + "Needs stale stamps and IMU gaps in the right places.",
 [CORE], [("too-old guard", CORE + ": AddMeasurement"), ("0.1 s association guard", CORE + ": GetClosestState")],
 observe=["measurement application", "states by time", "after-update callback"])
prop("C06", "Covariance is propagated contiguously over the buffered states",
 "The covariance seen by a measurement and the covariance of the newest published state after an update result from the initial covariance by one noise/propagation step between each two consecutive buffered states and one measurement update per applied measurement, in time order: no interval is skipped, counted twice, or integrated with the wrong duration. This holds after delayed measurements, interpolated states and rejected measurements as well.",
 ["histories", "schedules"], "For every history of IMU samples and measurements with arbitrary delays.",
 T0 + "A wrong start of the covariance replay shows only after particular combinations of delays and rejections.",
 [CORE], [("time up to which the covariance is valid, rewound at each correction and interpolation", CORE + ": PropPToState, PropagatePOneStep, GetClosestState, ApplyCorrection")],
 observe=["covariance at measurement application", "covariance at after-update callback"])
prop("C07", "Outputs: one per accepted input, always the right state",
 "Each initialisation produces exactly one initial-state output, each IMU sample that extends the history exactly one prediction output carrying that sample's state, and each accepted measurement at most one update output, carrying the newest state after everything has been re-propagated. Ignored, held and rejected inputs and an IMU sample that jumps back in time produce no output.",
 ["histories"], "For every history of initialisations, IMU samples and measurements.",
 T0 + "The number and content of outputs depends on the whole input history.",
 [CORE], [("publish callbacks", CORE + ": ProcessIMU, ProcessExternallyPropagatedState, AddMeasurement; Init through the init measurement")],
 observe=["publish callbacks with the state handed over"])
prop("C08", "A measurement is applied at its own time",
 "A measurement is applied to the buffered state at most 1 ms away from its time stamp if there is one; otherwise a state exactly at its time stamp is inserted between its neighbours, with IMU readings linearly interpolated and values propagated from the state before it, and the measurement is applied there. It is never applied to a state further than 1 ms away while neighbours on both sides exist.",
 ["inputs", "histories"], "For every position of a measurement time stamp relative to buffered states, including exact hits, ties, the newest and the oldest state.",
 T0 + "Boundary positions between samples are an input space, not a sample.",
 [CORE, CONT], [("closest-state look-up and interpolation", CORE + ": GetClosestState"), ("closest query", CONT + ": GetIteratorClosest, GetClosestBefore, GetClosestAfter")],
 observe=["state time and readings when a measurement is applied"])
prop("C09", "IMU anomalies: spikes, gaps, duplicates and small reordering stay contained",
 "An accelerometer reading with magnitude above 50 m/s2 never enters a buffered state: a recent clean reading takes its place. Before measurements are accepted, a sample more than 0.1 s away from the newest state only re-dates that state (values and covariance unchanged); a sample with an already buffered time stamp never replaces the buffered state; a sample up to 10 ms older than its predecessor is accepted without disturbing the states after it.",
 ["inputs", "histories"], "For every placement of spikes, gaps, duplicated and slightly out-of-order samples in an IMU stream.",
 T0 + "Anomalies interact with the warm-up and with each other.",
 [CORE, CONT], [("spike filter, large-gap re-dating, duplicate handling", CORE + ": ProcessIMU; " + CONT + ": Insert, UpdateTime")],
 observe=["states by time", "prediction output"])
prop("C10", "Externally propagated states are adopted, everything else is kept",
 "In external-propagation mode a sample flagged as already propagated sets position, velocity and attitude of the new newest state to exactly the supplied values and carries all other state values over from the newest state; a sample not so flagged is propagated internally. The first accepted sample after initialisation restarts the history at its time stamp, keeping the initial covariance, and a first sample more than 5 s away from the initial state only re-dates it.",
 ["histories", "inputs"], "For every mix of externally propagated and raw samples, time stamps and measurements.",
 T0 + "No test drives this input path.",
 [CORE], [("external propagation entry point", CORE + ": ProcessExternallyPropagatedState")],
 observe=["states by time", "prediction output", "covariance"])
prop("C11", "History is bounded in time and recent history is never dropped",
 "States and measurements no older than 60 s before the newest one are never discarded except by a re-initialisation or the documented restart of external propagation. While measurements keep being processed, history much older than 60 s is discarded, so that memory use stays bounded, and discarding it never changes the current estimate or invalidates an update in progress.",
 ["histories"], "For every history, including ones spanning several minutes with old delayed measurements.",
 T0 + "Needs histories of minutes and delayed measurements near the retention limit.",
 [CORE, CONT], [("periodic clean-up with a 60 s horizon", CORE + ": CleanUpBuffers, GetClosestState"), ("age based erase", CONT + ": ClearOlderThan")],
 observe=["states by time", "live measurement objects"])
prop("C12", "Fixed states are never corrected",
 "While the fixed-bias option is on, no measurement update changes the accelerometer or gyroscope bias, and all other states are corrected as usual. In the applications, an update by a sensor whose fix options were on when its message arrived leaves exactly unchanged, up to rounding, what they fix: scale, sensor position and attitude, world-frame position and attitude for a pose, the antenna position for a position, angle or distance. Each option acts independently of the others and on its own sensor's updates only.",
 ["configurations", "inputs", "histories"], "For every combination of fix options and every correction, also when options change at run time.",
 T0 + "All option combinations times all corrections are out of reach of a sample.",
 [CORE, "msf_updates/src/pose_msf/pose_sensormanager.h", "msf_updates/src/position_msf/position_sensormanager.h", "msf_updates/src/spherical_msf/spherical_sensormanager.h", "msf_updates/src/position_pose_msf/position_pose_sensormanager.h"],
 [("bias rows of the correction zeroed", CORE + ": ApplyCorrection"), ("fixed states: measurement Jacobian columns and correction rows", U + "pose_sensor_handler/pose_measurement.h; msf_updates/src/*/..sensormanager.h: AugmentCorrectionVector")],
 observe=["state before and after an update"])
prop("C13", "An outlier-rejected measurement leaves no trace",
 "With outlier rejection enabled, a measurement whose normalised innovation exceeds the threshold changes neither state nor covariance nor the fate of any other measurement, whether it arrives in order or late; one at or below the threshold is applied in full, and with rejection disabled every measurement is applied. This holds for both the fixed-size and the dynamic-size update path.",
 ["inputs", "histories"], "For every innovation/threshold pair and every position of the rejected measurement in the history.",
 T0 + "Late rejected measurements exercise the roll-back path without a correction.",
 [MEAS, CORE], [("Mahalanobis gate", MEAS + ": CalculateAndApplyCorrection (two overloads)")],
 observe=["states and covariance after the update"])
prop("C14", "Fuzzy-tracking watchdog",
 "The first 30 corrections after an initialisation are always accepted as reference; afterwards, when the corrected drift-free attitude deviates from the component-wise median of the last 30 accepted ones by more than the threshold, all non-propagated states are restored to their values before the correction while position, velocity and attitude keep it. A restored correction does not enter the reference window, and initialisation empties it.",
 ["histories", "inputs"], "For every sequence of corrections around the window length, wrap-around, and re-initialisation.",
 T0 + "The watchdog acts only after 30 updates; no test performs one.",
 ["msf_core/include/msf_core/msf_checkFuzzyTracking.h", CORE], [("ring buffer with median", "msf_core/include/msf_core/msf_checkFuzzyTracking.h: Check"), ("median", "msf_core/include/msf_core/eigen_utils.h: GetMedian")],
 observe=["state after each correction"])
prop("C15", "Time-ordered buffer answers every query like a sorted map",
 "For every sequence of insertions, re-datings, age-based clean-ups and clears, each look-up (exact, closest, closest before, strictly after, first, last, previous-or-next neighbour) returns the element a sorted map of the same content defines, an explicit invalid element when there is none, ties resolve to the earlier element, and an insertion at an occupied time keeps the existing element.",
 ["histories", "inputs"], "For every operation sequence over the container and every query time, including containers of zero, one and two elements.",
 T0 + "Corner cases depend on container size and position.",
 [CONT], [("sorted container over a balanced tree", CONT)],
 observe=["public container API"])
prop("C16", "Relative measurements pair with the same sensor's previous measurement",
 "Looking up the predecessor of a measurement yields the latest earlier measurement of the same sensor that is in the history, or an explicit invalid result when there is none or when no measurement exists at the given time. The state transition accumulated between two buffered states is the product of the single-step transitions stored with the states in between, later steps multiplied from the left, the newer state's own step excluded.",
 ["histories", "inputs"], "For every history of measurements of several sensors and every pair of buffered states.",
 T0 + "No relative measurement is exercised by any test.",
 [CORE, MEAS], [("previous-measurement search", CORE + ": GetPreviousMeasurement"), ("accumulated transition", CORE + ": GetAccumulatedStateTransitionStochasticCloning")],
 observe=["public core API"])
prop("C17", "Dead reckoning integrates exactly the buffered readings",
 "Between two consecutive buffered states, velocity changes by the mean of both bias-corrected, rotated accelerations minus gravity times the time difference, position by the mean of both velocities times it, and attitude by the rotation of the mean bias-corrected angular rate over it; biases and all sensor states carry over unchanged. The same holds for every re-propagated state after a correction of biases, velocity or attitude.",
 ["inputs", "histories"], "For every IMU stream and correction history.",
 T0 + "Re-propagation after corrections is never executed by a test.",
 [CORE, TMP], [("state propagation", CORE + ": PropagateState"), ("carry-over of non-propagated states", TMP + ": CopyNonPropagationStates")],
 observe=["states by time"])
prop("C18", "Pose sensor input: which messages become measurements, and when",
 "A pose message becomes exactly one measurement stamped with its time stamp minus the configured delay, unless it is of a type without covariance while fixed covariance is off, or follows the message last used by the same handler by no more than the configured minimum spacing less 1 ms, in which case it has no effect. The measurement carries the message's pose, inverted when the sensor reports the world in its own frame, its position and attitude covariance blocks (the configured noises in fixed mode; otherwise the message's, turned along with the pose) without cross terms, the absolute/relative mode, the gate settings and the number of the sensor that produced it.",
 ["inputs", "histories", "configurations"], "For every message sequence, message type and handler configuration, with one or two pose handlers.",
 T0 + "Handlers are not compiled by the tests.",
 [U + "pose_sensor_handler/implementation/pose_sensorhandler.hpp", U + "pose_sensor_handler/pose_measurement.h"],
 [("admission, throttling and delay", U + "pose_sensor_handler/implementation/pose_sensorhandler.hpp: ProcessPoseMeasurement and callbacks"),
  ("conversion of the message", U + "pose_sensor_handler/pose_measurement.h: MakeFromSensorReadingImpl")],
 observe=["measurements reaching the core", "state updates"])
prop("C19", "Position sensor input: which messages become measurements, and when",
 "A position message becomes exactly one measurement with its position, stamped with its time stamp minus the configured delay, except that frame-transform messages are used one in five, and messages without covariance are dropped while fixed covariance is off. Its covariance is the configured noise in fixed mode and the message's otherwise. A geographic fix is converted to east, north and up metres relative to the first fix that its handler received, so the first fix maps to the origin.",
 ["inputs", "histories", "configurations"], "For every message sequence, message type and handler configuration, with one or two position handlers.",
 T0 + "Handlers are not compiled by the tests.",
 [U + "position_sensor_handler/implementation/position_sensorhandler.hpp", U + "position_sensor_handler/position_measurement.h"],
 [("admission and delay", U + "position_sensor_handler/implementation/position_sensorhandler.hpp")],
 observe=["measurements reaching the core"])
prop("C20", "Pressure sensor input: one message in ten, ten-message mean",
 "Every pressure message whose sequence number is divisible by ten becomes exactly one measurement of that message's height, stamped with the message's time and with the configured noise; no other pressure message has any effect. The averaged height offered for initialisation is the mean over the last ten messages used, heights not yet received counting as zero.",
 ["inputs", "histories", "configurations"], "For every message sequence and handler configuration.",
 T0 + "Handlers are not compiled by the tests.",
 [U + "pressure_sensor_handler/implementation/pressure_sensorhandler.hpp", U + "pressure_sensor_handler/pressure_measurement.h"],
 [("decimation and moving average", U + "pressure_sensor_handler/implementation/pressure_sensorhandler.hpp: MeasurementCallback")],
 observe=["measurements reaching the core", "averaged height"])
prop("C21", "Spherical sensor input: angle and distance become measurements independently",
 "Each angle message and each distance message becomes exactly one measurement of its own kind, stamped with its time stamp minus that kind's own configured delay, with its own noise setting and sensor number, unless fixed covariance is off, in which case it has no effect.",
 ["inputs", "histories", "configurations"], "For every message sequence and handler configuration.",
 T0 + "Handlers are not compiled by the tests.",
 [U + "spherical_position_sensor/implementation/spherical_sensorhandler.hpp", U + "spherical_position_sensor/spherical_measurement.h"],
 [("admission and delay", U + "spherical_position_sensor/implementation/spherical_sensorhandler.hpp")],
 observe=["measurements reaching the core"])
prop("C22", "Operator requests: when and with which values an application initialises",
 "A configuration change initialises if and only if it sets the init trigger, or the height trigger while a pose with a non-zero position was received; in the pose application an initialise-scale request initialises with exactly that scale, and an initialise-height request is refused without effect when the height is within 1 cm of zero or no such pose was received, and otherwise initialises with the scale that maps the last pose's height to the requested one. Every initialisation is stamped with the current time and derives position and attitude from the latest readings received (neutral ones before that), the configured sensor mounting, heading and scale such that those readings are reproduced, and sets velocity and biases to zero.",
 ["histories", "inputs", "configurations"], "For every sequence of requests, configuration changes and sensor messages, in each of the five applications.",
 T0 + "Managers are not compiled by the tests.",
 ["msf_updates/src/pose_msf/pose_sensormanager.h", "msf_updates/src/position_msf/position_sensormanager.h", "msf_updates/src/spherical_msf/spherical_sensormanager.h",
  "msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h", "msf_updates/src/position_pose_msf/position_pose_sensormanager.h"],
 [("services and reconfigure callback", "msf_updates/src/*/…sensormanager.h: InitScale, InitHeight, Config, Init")],
 observe=["service responses", "initial-state output"])
prop("C23", "Scale stays positive",
 "If a measurement update drives the scale estimate of a pose-based application below zero, the scale is replaced by 0.1 before it is used or published; a non-negative scale is never altered by this safeguard, and nothing else is.",
 ["inputs", "histories"], "For every correction and prior scale.",
 T0 + "Managers are not compiled by the tests.",
 ["msf_updates/src/pose_msf/pose_sensormanager.h", "msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h", "msf_updates/src/position_pose_msf/position_pose_sensormanager.h"],
 [("sanity check after each correction", "SanityCheckCorrection in the sensor managers")],
 observe=["state after an update"])
prop("C24", "Correction messages let an external propagator follow the filter",
 "The message sent at initialisation carries the complete core state and marks it as initialisation. After an update, if someone listens and the state is finite, exactly one correction message stamped with the state's time is sent; live, it is marked as correction and holds the differences between the state and the last received external state in position, velocity, attitude and biases, in playback zeros with identity attitude marked as initialisation.",
 ["histories", "inputs", "configurations"], "For every history of external states, updates and initialisations, with and without listeners, live or in playback.",
 T0 + "The ROS layer is not compiled by the tests.",
 ["msf_core/include/msf_core/msf_sensormanagerROS.h", "msf_core/include/msf_core/msf_IMUHandler_ROS.h"],
 [("correction message construction", "msf_core/include/msf_core/msf_sensormanagerROS.h: PublishStateInitial, PublishStateAfterUpdate"), ("last external state", "msf_sensormanagerROS.h: hl_state_buf_")],
 observe=["published messages"])
prop("C25", "IMU input routing",
 "Each IMU message reaches the filter exactly once with its own time stamp, sequence number and readings. Each external-state message does too, with its attitude normalised, and is treated as already propagated if and only if it is flagged as current state, its position, velocity and attitude are finite and playback is off; otherwise the filter propagates by itself.",
 ["inputs", "configurations"], "For every IMU and external-state message and flag combination, in every application.",
 T0 + "The ROS layer is not compiled by the tests.",
 ["msf_core/include/msf_core/msf_IMUHandler_ROS.h"], [("message callbacks", "msf_core/include/msf_core/msf_IMUHandler_ROS.h: StateCallback, IMUCallback")],
 observe=["states reaching the core"])
prop("C26", "State messages mirror the published state",
 "Every published pose, odometry, full-state and covariance message carries the time stamp, frame, values and covariance entries of exactly the state it was published for, in the documented component order (named fields for quaternions, core entries before sensor entries; odometry velocities in the body frame with their transformed covariance). Optional messages are sent only if someone listens (after propagation: to any of pose, odometry and external state), the full state after every update, and a frame transform stamped with the current time after every update.",
 ["inputs", "configurations"], "For every state, covariance and listener combination.",
 T0 + "The ROS layer is not compiled by the tests.",
 [ST, "msf_core/include/msf_core/msf_sensormanagerROS.h"], [("message conversion", ST + ": ToPoseMsg, ToOdometryMsg, ToFullStateMsg, ToExtStateMsg, ToCoreStateMsg"), ("publishing", "msf_core/include/msf_core/msf_sensormanagerROS.h")],
 observe=["published messages"])
prop("C27", "Timing statistics describe exactly the recorded intervals",
 "For every tag, count, total, mean, minimum and maximum cover all intervals recorded under that tag since the last reset, and the rolling mean and variance cover the most recent 50 of them; different tags never mix, the same tag always denotes the same record, and each started timer contributes at most once: stopping one that is not running, or discarding it, records nothing.",
 ["histories", "inputs"], "For every sequence of timer operations over several tags, beyond the window length.",
 "The timing test checks a handful of fixed cases; counts beyond the window, several tags interleaved and resets are not covered.",
 ["msf_timing/include/msf_timing/Timer.h", "msf_timing/src/Timer.cc"], [("rolling accumulator", "msf_timing/include/msf_timing/Timer.h: Accumulator"), ("tag registry", "msf_timing/src/Timer.cc: Timing")],
 observe=["public timing API"])
prop("C28", "Covariance prediction: transition and process noise of each step",
 "Between two consecutive buffered states the error covariance becomes P' = F P F^T + Q. F is the fourth-order-in-time error-state transition of the mean bias-corrected reading and current attitude (identity for every sensor state), and is stored with the state. Q is the integrated process noise: the accelerometer and accelerometer-bias noise enter position and velocity with their exact time integrals, gyro and gyro-bias noise enter as defined for a non-rotating, non-accelerating platform, each scaled by its own density squared, and every sensor state receives exactly the noise its application configured.",
 ["inputs"], "For every state, pair of readings, duration, noise setting and prior covariance.",
 T0 + "One wrong coefficient among several hundred terms only makes the covariance slightly wrong; no test evaluates it.",
 ["msf_core/include/msf_core/implementation/calcQCore.h", CORE], [("closed-form process noise", "msf_core/include/msf_core/implementation/calcQCore.h"), ("transition and covariance step", CORE + ": PredictProcessCovariance")],
 observe=["covariance, transition and noise matrices after a prediction"])
prop("C29", "Frame conversions: geographic, similarity and message conversions are exact",
 "A geographic fix converts to the WGS84 earth-centred point of its latitude, longitude and altitude, and, relative to the reference given last, to its east, north and up coordinates there: the reference is the origin and its vertical is up. The similarity transform computed from two or more pose pairs is the least-squares position and scale, the shortest one if the pairs do not determine it, and the mean attitude offset, independent of quaternion signs and of the order of the pairs; fewer pairs are refused. Pose messages and their covariance blocks convert back and forth without loss, off-diagonal blocks staying the transpose of their opposite.",
 ["inputs", "histories"], "For all coordinates, references, sequences of pose pairs and blocks.",
 "Real-valued input spaces: the one test uses a single noise-free transform, geographic conversion has no test.",
 ["msf_core/src/lib/gps_conversion.cc", "msf_core/src/similaritytransform.cc", "msf_core/include/msf_core/similaritytransform.h", "msf_core/include/msf_core/eigen_utils.h"],
 [("geographic conversion", "msf_core/src/lib/gps_conversion.cc"), ("similarity transform", "msf_core/src/similaritytransform.cc: Compute"), ("message conversion", "msf_core/include/msf_core/similaritytransform.h")],
 observe=["return values of the conversion functions"])
prop("C30", "Configured noise parameters reach the filter",
 "The process noise of every sensor state (scale, sensor mounting, world frame, pressure bias, antenna position) over a propagation step is its own configured noise squared times the duration, on its own diagonal block, in every application that estimates that state. The core noise densities and the fixed-bias option the filter uses are the ones configured last.",
 ["configurations", "histories"], "For every sequence of configuration changes and every duration.",
 T0 + "Managers are not compiled by the tests; swapped or unused parameters go unnoticed.",
 ["msf_updates/src/pose_msf/pose_sensormanager.h", "msf_updates/src/position_pose_msf/position_pose_sensormanager.h", "msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h",
  "msf_updates/src/position_msf/position_sensormanager.h", "msf_updates/src/spherical_msf/spherical_sensormanager.h", "msf_core/include/msf_core/msf_sensormanagerROS.h"],
 [("process noise of sensor states", "CalculateQAuxiliaryStates in the sensor managers"), ("core parameters", "msf_core/include/msf_core/msf_sensormanagerROS.h: GetParam…")],
 observe=["process noise blocks", "parameter getters"])

prop("C31", "Measurement models: residual and Jacobian match the sensor's geometry",
 "For each sensor, the residual handed to the filter is the reading minus the reading predicted from the state (position, attitude, pressure height, bearing, range, including mounting offset, world transform, scale and bias), and each block of the measurement Jacobian is the derivative of the prediction with respect to the corresponding error state. States configured as fixed have zero Jacobian columns and lose their cross-covariance, the measurement noise is the one given with the reading, and relative measurements compare the change since the previous reading of the same sensor with the change of the state.",
 ["inputs", "configurations"], "For every state, reading, noise and combination of fixed states.",
 T0 + "Wrong signs, frames or block positions only show away from identity attitudes and zero offsets; no test evaluates any measurement model.",
 [U + "pose_sensor_handler/implementation/pose_sensorhandler.hpp", U + "pose_sensor_handler/pose_measurement.h", U + "position_sensor_handler/position_measurement.h", U + "pressure_sensor_handler/pressure_measurement.h", U + "spherical_position_sensor/spherical_measurement.h"],
 [("pose model", U + "pose_sensor_handler/pose_measurement.h: Apply, CalculateH"), ("position model", U + "position_sensor_handler/position_measurement.h"),
  ("pressure model", U + "pressure_sensor_handler/pressure_measurement.h"), ("bearing and range models", U + "spherical_position_sensor/spherical_measurement.h")],
 observe=["arguments of the Kalman update"])
prop("C32", "The Kalman update computes the right correction and covariance",
 "Given Jacobian, residual and noise, an accepted measurement corrects the state by K r and leaves covariance (I-KH)P(I-KH)^T + KRK^T, symmetric, with K = P H^T (H P H^T + R)^-1; quaternions are corrected multiplicatively and stay normalised. A relative measurement uses the joint covariance of old and new state, i.e. the cross-covariance accumulated since the old state. A sensor state never correlated with anything stays untouched, and with fixed bias the bias never changes.",
 ["inputs", "histories"], "For every prior covariance, Jacobian, residual and noise, and every chain of predictions and updates.",
 T0 + "A wrong transpose or missing term leaves the filter plausible on the trajectories one would sample.",
 [MEAS, CORE, ST], [("gain, correction and Joseph-form posterior", MEAS + ": CalculateAndApplyCorrection (two overloads), CalculateAndApplyCorrectionRelative"), ("state correction", CORE + ": ApplyCorrection; " + ST + ": Correct")],
 observe=["state and covariance after a measurement"])
prop("C33", "Simulated degradation: drift of readings and the pass-through node",
 "A distorter accumulates position, scale and attitude drift at the configured mean rates over the time that passes, whatever the spacing, and adds the position drift before scaling and applies the rotation drift on the right. A pose handler with distortion leaves the first reading untouched, then drifts each by the time since the previous one, with the rates and deviations configured for it; a handler without distortion alters nothing. The distortion node passes every message on unchanged, to the output of its own type, exactly while its kind (pose or position) is enabled.",
 ["inputs", "histories", "configurations"], "For every sequence of readings, rates, time steps and configuration changes.",
 "The distortion test only prints; nothing checks accumulated drift, the handler wiring or the node.",
 ["msf_updates/src/msf_distort/PoseDistorter.cc", U + "pose_sensor_handler/pose_measurement.h", "msf_distort/src/msf_distort.cc"],
 [("drift", "msf_updates/src/msf_distort/PoseDistorter.cc: Distort"), ("use by the pose sensor", U + "pose_sensor_handler/pose_measurement.h: MakeFromSensorReadingImpl"), ("node", "msf_distort/src/msf_distort.cc: CallbackHandler")],
 observe=["distorted readings", "messages of the node"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
