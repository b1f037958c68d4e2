#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is maintained here, one entry per property)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

EST = "src/estimator/inekf_estimator.cpp"; PROP = "src/filter/inekf/propagation/imu_propagation.cpp"
VEL = "src/filter/inekf/correction/velocity_correction.cpp"; LEG = "src/filter/inekf/correction/legged_kinematics_correction.cpp"
KF = "src/filter/inekf/inekf.cpp"; ST = "src/state/robot_state.cpp"; LIE = "src/math/lie_group.cpp"
FIL = "src/imu_filter/imu_ang_vel_ekf.cpp"; KIN = "src/kinematics/mini_cheetah_kinematics.cpp"
SUB = "ROS/drift/src/communication/ros_subscriber.cpp"; PUB = "ROS/drift/src/communication/ros_publisher.cpp"
WO = "baselines/src/wheel_odometry/wheel_odometry.cpp"

p("P01", "Estimator lifecycle: calibrate, initialise, run, clear",
  "The estimator reports itself enabled exactly from the moment its state has been initialised from sensor data (or it was enabled explicitly) until it is cleared, and reports its bias as initialised exactly from the end of bias calibration onwards. Initialising the state with no IMU sample available changes nothing: the estimator stays disabled, the state is untouched and nothing is published. Clearing always returns to the disabled condition, empties every sensor buffer and the output queue, and the cycle can be repeated any number of times.",
  ["histories", "inputs"], "every sequence of lifecycle calls interleaved with sensor arrivals, any number of clear/re-initialise cycles",
  "The only estimator-level test runs one fixed initialise-and-step sequence; no test clears, re-initialises, or initialises with an empty IMU buffer.",
  [EST, PROP], [("InitState/EnableFilter/clear set the enabled flag", EST), ("InitImuBias sets the bias flag", PROP)],
  [("enabled", "filter may be stepped", EST), ("bias initialised", "calibration finished", PROP)],
  ["is_enabled()", "BiasInitialized()", "get_state()", "robot state queue"])
p("P02", "IMU samples: each integrated exactly once, in order, over its own interval",
  "Every step taken while an IMU sample is waiting removes exactly the oldest waiting sample, and a step taken with no sample waiting propagates nothing. Each sample, starting with the one used for initialisation, drives the state over exactly the interval from its predecessor's timestamp to its own, when its successor is taken, so that intervals are contiguous and no sample is skipped, repeated or reordered (a repeated timestamp gives a zero-length interval). After a propagation the state's propagation time is the timestamp of the sample that was integrated.",
  ["histories", "inputs"], "every arrival pattern of IMU samples (bursts, gaps, repeated timestamps, starvation) interleaved with steps and re-initialisations",
  "The existing test feeds one regular stream and checks only final positions to a loose tolerance.",
  [PROP], [("previous-sample hand-over and time difference", PROP)],
  [("previous sample", "sample that drives the next interval", PROP), ("propagation time", "time up to which the state is propagated", ST)],
  ["get_state().get_propagate_time()", "IMU queue length", "get_state().get_X()"])
p("P03", "Velocity measurements: used at most once, only when due and fresh, in order",
  "A step applies at most one waiting velocity measurement: the oldest one whose timestamp is strictly before the current propagation time and not older than it by more than the configured threshold. Measurements older than the threshold are discarded without influencing the state, and a measurement that is not yet due is left in its buffer and blocks nothing that was applied before it. Applying one stamps the state with its timestamp, and when none is applied the correction leaves the state untouched and reports that nothing was corrected.",
  ["histories", "inputs", "configurations"], "every relation between measurement timestamps, propagation time and threshold (equality included), any backlog, any number of velocity sources",
  "The existing test uses measurements that are always slightly in the past; boundaries, stale backlogs and future measurements are never exercised.",
  [VEL], [("time gate and stale-drop loop", VEL)], None, ["velocity queue length", "get_state().get_time()", "published states"])
p("P04", "Leg kinematics: consumed in order, used only within the time threshold",
  "A step consumes at most the leg-kinematics measurements at the head of their buffer, in order: those older than the propagation time by more than the configured threshold are discarded until one within it is found, and that single measurement is applied. A measurement ahead of the propagation time by more than the threshold is discarded without influencing the state, and the step reports no leg-kinematics correction. A measurement within the threshold (both ends included) is always applied and stamps the state with its timestamp.",
  ["histories", "inputs", "configurations"], "every relation between measurement timestamps, propagation time and threshold (equality included), any backlog",
  "No existing test runs the legged correction at all.",
  [LEG], [("time gate and stale-drop loop", LEG)], None, ["leg-kinematics queue length", "get_state().get_time()"])
p("P05", "Contact bookkeeping: one tracked foot per leg in contact, none other",
  "After every applied leg-kinematics measurement the state holds exactly one foot position for each leg that measurement reported in contact (per correction source) and none for the others; its mean, covariance and process-noise dimensions always agree. Gaining or losing a contact never changes the estimate, covariance or process noise of the base state, the biases or the other feet beyond the correction itself, and a newly tracked foot carries the configured contact noise. This holds for any number of legs, any set of simultaneous touch-downs and lift-offs and any number of leg-kinematics sources sharing a state, and subsequent corrections always refer to the right foot.",
  ["histories", "inputs"], "every contact history over any number of legs, including flicker, simultaneous make and break, and several sources",
  "No existing test adds or removes a contact.",
  [LEG, ST], [("leg-to-column map maintained through shared indices", LEG), ("column removal shifts later columns", ST)],
  [("contact map", "leg id to state column", LEG), ("column back-references", "column to owner's index", ST)],
  ["get_X()", "get_P()", "get_continuous_noise_covariance()"])
p("P06", "Publication: one immutable snapshot per effective step, in order",
  "Each successful initialisation and each step in which the propagation or at least one correction took effect appends exactly one snapshot to the output queue, equal to the estimator's state at the end of that call; any other call appends nothing. Snapshots appear in the order of the calls, and once published a snapshot never changes, whatever the estimator does afterwards.",
  ["histories"], "every interleaving of sensor arrivals, steps, consumer pops and clears",
  "Tests never look at more than the final contents of the output queue and never check that older entries stay unchanged.",
  [EST], [("new-pose flag and copy-on-publish", EST)], [("output queue", "published snapshots", EST)], ["robot state queue"])
p("P07", "Clear and re-initialise is indistinguishable from a fresh start",
  "After clearing, the estimator behaves from its next initialisation on exactly like a newly constructed estimator with the same configuration and the bias calibration already obtained: nothing measured, buffered, tracked (including foot contacts) or estimated before the clear has any influence. This holds wherever in a run the clear happens and however often it is repeated.",
  ["histories"], "every pre-clear history (any contacts, any backlog, any covariance) and any post-clear input",
  "No existing test calls clear.",
  [EST, PROP, VEL, LEG, ST], [("clear chain over propagation, corrections, state", EST)], None, ["published states after the clear"])
p("P08", "Mean propagation integrates strapdown IMU kinematics exactly",
  "Over an interval with constant bias-corrected angular rate and specific force in the body frame, propagation moves orientation, velocity and position to the exact solution of rigid-body kinematics under gravity (9.80 along world -z), for every interval length (zero and negative included) and every rotation angle, however small or large. Mounting rotation and lever arm of the IMU are compensated as configured, and biases and tracked foot positions are left unchanged.",
  ["inputs", "configurations"], "every state, IMU sample, bias, mounting, interval length, and number of tracked feet",
  "The existing test checks a handful of axis-aligned motions without rotation, bias or lever arm.",
  [PROP, LIE], [("closed-form integration with exponential-map integrals", PROP)], None, ["get_X()", "get_theta()"])
p("P09", "Covariance propagation follows the error dynamics of the chosen error type",
  "Propagation maps the covariance P to F P F' + Q, where F is the exact state-transition matrix of the linearised invariant error dynamics over the interval (left- or right-invariant as configured, with bias columns exactly when bias estimation is enabled) and Q is the discretised continuous noise with the configured gyroscope, accelerometer, bias and contact intensities. With bias estimation disabled the biases keep zero correlation with the rest. This holds for every rotation rate including none, every interval and any number of tracked feet.",
  ["inputs", "configurations"], "every state, covariance, sample, interval, error type, bias-estimation setting and contact set",
  "No existing test looks at a covariance.",
  [PROP], [("analytical transition matrix and discrete noise", PROP)], None, ["get_P()"])
p("P10", "Velocity correction is the invariant Kalman update, for either error type",
  "Applying a body-velocity measurement performs exactly the invariant Kalman update of mean, biases and covariance for the measurement mapped by the configured mounting rotation and scale, with the configured noise, in right- or left-invariant error coordinates as configured (the yaw-rate bias being deliberately held fixed). The covariance it leaves is the Joseph-form posterior expressed at the updated state, and the result does not depend on what was applied in earlier steps except through the state.",
  ["inputs", "configurations"], "every state, covariance, measurement, noise setting, mounting, error type, bias-estimation setting and number of tracked feet",
  "The existing test checks only that the mean converges on straight-line motion with one error type.",
  [VEL, KF], [("innovation, gain, exponential-map update, adjoint mapping", KF)], None, ["get_X()", "get_theta()", "get_P()"])
p("P11", "Leg-kinematics correction and foot augmentation are the invariant Kalman steps",
  "For all legs in contact that are already tracked, one stacked invariant Kalman update is applied using each foot's measured body-frame position with encoder noise mapped through its Jacobian plus the configured additive noise, for either error type. A leg newly in contact is appended with mean position p + R h and with the covariance of that sum (correlated with the base state), and a leg no longer in contact is marginalised out, in that order after the update.",
  ["inputs", "configurations", "histories"], "every state, covariance, foot geometry, Jacobian, noise setting, error type and contact set",
  "No existing test runs the legged correction.",
  [LEG, KF], [("stacked observation and augmentation matrices", LEG)], None, ["get_X()", "get_theta()", "get_P()"])
p("P12", "State integrity over arbitrarily long runs",
  "For every finite input history the estimate stays a valid extended pose (rotation orthonormal with determinant +1, remaining structure exact) and the covariance stays finite, symmetric and, when IMU timestamps never decrease, positive semidefinite, with dimensions matching the state, to numerical accuracy that does not degrade over long runs. The per-component views of the state (rotation, velocity, position, world and body frame, biases, inverse) always agree with the full matrices.",
  ["histories", "inputs"], "every history of propagations, corrections, contact changes and clears, of any length",
  "The existing test runs a short fixed history and does not look at the covariance or at orthonormality.",
  [PROP, KF, LEG, ST], [("group-affine updates and Joseph form", KF)], None, ["get_X()", "get_P()", "component getters"])
p("P13", "Static bias calibration averages exactly the configured number of samples",
  "With static calibration on, bias initialisation consumes exactly the configured number of IMU samples, one per call, in order and none besides, and the resulting biases are the mean angular rate and the mean specific force with gravity removed, in the body frame after mounting rotation and lever-arm compensation (gravity taken along world -z for a level robot, or along the orientation reported by the IMU when so configured). With it off, the configured priors are used and no sample is consumed. A configuration asking for zero samples leaves the priors in force and all results finite.",
  ["inputs", "configurations", "histories"], "every sample stream, calibration length (zero included), mounting and arrival pattern",
  "The existing test runs with calibration length zero and never inspects the bias.",
  [PROP], [("calibration accumulator", PROP)], [("collected samples", "gravity-free samples so far", PROP)], ["IMU queue length", "BiasInitialized()", "get_theta() after initialisation"])
p("P14", "State initialisation is a function of the latest sensor data and configuration",
  "Initialisation takes the oldest waiting IMU sample for time, body angular rate (in the body frame) and, if so configured, orientation of the body in the world; position is zero and biases are the calibrated or prior ones. Each correction source then contributes its most recent waiting measurement, discarding older ones, and sets the velocity: the measured velocity mapped by mounting rotation, scale and initial orientation, or the leg-odometry velocity of a stance leg. The covariance starts at the configured standard deviations for rotation, velocity, position and biases with no correlation.",
  ["inputs", "configurations"], "every first sample, backlog, correction set and configuration",
  "The existing test initialises once with identity mounting and checks nothing about the result.",
  [EST, PROP, VEL, LEG], [("initial-state setters", PROP)], None, ["get_state() after initialisation", "queue lengths"])
p("P15", "Results depend only on the data, not on polling, batching or neighbours",
  "For a given configuration and sequence of arrivals and of the steps that consume them, the published states are always the same, bit for bit: polling the estimator while nothing is waiting never changes its state or its later results. Estimators that share no buffers never influence each other, in one process or in two, and the same holds for the IMU filter once it has started up.",
  ["histories", "schedules"], "every placement of idle polls and every interleaving of several instances, over any input history",
  "No existing test polls an idle estimator, runs two instances or compares repeated runs.",
  [EST, PROP, VEL, LEG, FIL], [("early return on empty buffers; no global state", EST)], None, ["published states", "filter output"])
p("P16", "IMU filter: gates, orders and forwards each measurement exactly once",
  "In every operating mode the filter takes each source's measurements in arrival order, emits exactly one filtered IMU sample for each measurement it accepts and none for a rejected one, and never emits a measurement twice. Where an IMU corrects or two sources are merged, a measurement older than the last propagation by more than the configured threshold is discarded and never blocks newer ones (with angular velocities alone there is no gate, and they are dropped as long as no IMU sample is known); with one IMU and one angular-velocity source the earlier of the two heads is taken first and the other is left waiting. An emitted sample carries the accepted measurement's timestamp and the acceleration and orientation of the IMU sample it stems from.",
  ["histories", "configurations"], "every operating mode, arrival pattern and timestamp relation over all sources",
  "The IMU filter has no test.",
  [FIL], [("per-mode correction routines", FIL)], None, ["input and filtered queues"])
p("P17", "IMU filter: output is the Kalman estimate of rate and bias",
  "The filtered angular rate is exactly the estimate of a linear Kalman filter over rate and bias, fed in order with the accepted measurements under the configured noises and observation model, with angular-velocity measurements rotated into the IMU frame and the prediction step adding gyroscope increments when a gyroscope drives it. The measurement used for propagation shifts the rate estimate by exactly its change since the previous one.",
  ["inputs", "configurations", "histories"], "every measurement stream, noise setting, mounting, observation model and mode",
  "The IMU filter has no test.",
  [FIL], [("Kalman predict/update", FIL)], None, ["filtered queue"])
p("P18", "IMU filter: start-up, bias calibration, mode selection, clear and shutdown",
  "The filter selects its mode from the sources attached, and emits nothing before it is initialised: with static calibration it consumes exactly the configured number of samples, sets the bias to their mean and drops what queued up meanwhile, without it the configured prior is used. Clearing empties every attached buffer and the output in every mode, and the filter can be destroyed whether or not its thread was started.",
  ["configurations", "histories"], "every combination of attached sources, calibration setting and call order",
  "The IMU filter has no test.",
  [FIL], [("mode selection and InitializeFilter", FIL)], None, ["input and filtered queues", "process termination"])
p("P19", "Shared buffers are safe and lossless under every thread schedule",
  "However sensor producers, the estimator, the IMU filter, the logger, the publisher and callers of clear interleave, every access to a shared buffer is made under that buffer's lock, nothing is read or removed from an empty buffer, and every lock taken is released. Items leave each buffer in the order they entered, and each is either still waiting, consumed exactly once, or discarded by a clear, never lost, duplicated or removed in another's place.",
  ["schedules"], "every interleaving of producers, estimator, filter thread, logger thread, consumers and clear",
  "Tests are single-threaded; a race needs a particular interleaving that a run almost never produces.",
  [EST, PROP, VEL, LEG, FIL, PUB, SUB, WO], [("per-buffer mutexes", EST)], None, ["lock and queue operations"])
p("P20", "No deadlock, no starvation of shutdown: every call and every thread ends",
  "Under every schedule no set of threads of the system can block each other forever, every estimator, filter and publisher call returns once the data it waits for has arrived, and destroying an estimator or a filter always completes. When an estimator is destroyed every state still waiting to be logged is first written according to the logging rate.",
  ["schedules"], "every interleaving, including shutdown and clear at any point",
  "Tests never run the background threads against each other.",
  [EST, FIL, WO, PUB], [("lock nesting order, stop flags, join", EST)], None, ["thread termination", "log files"])
p("P21", "Pose log: complete, rate-limited, consistent and separated by clear",
  "With logging on, the three log files contain, in publication order, one record for each step's state that is at least one logging period newer than the previously logged one, and no other; the three files always hold the same timestamps. The records equal the published time, world position with orientation quaternion, world velocity and body velocity to full double precision. Each clear starts new files whose names never repeat earlier ones, a record belongs wholly to the files open for the run in which its state was produced (states still waiting at a clear are discarded), names keep the configured directory and extension, and with logging off no file is created.",
  ["schedules", "histories", "configurations"], "every schedule of the logging thread against steps and clears, every rate and run length",
  "No existing test enables the logger.",
  [EST], [("log queue, logging thread, file rotation", EST)], None, ["log files"])
p("P22", "Leg kinematics: Jacobians, positions and leg odometry agree for every pose",
  "For every joint configuration each foot position is that of the leg's kinematic chain (left and right legs mirror each other, front and hind legs are translates, and a leg's foot depends only on its own joints), and each reported Jacobian is the derivative of that position; the generated pose and rotation functions describe the same chain. Reported positions are those of the last computation. The initial velocity reported for a body rate w is the negative of the foot's velocity relative to the body as seen at a leg in contact (first of front-right, front-left, hind-right, hind-left), and zero with no contact.",
  ["inputs"], "every joint configuration, joint velocity, body rate and contact pattern",
  "The existing test compares positions at one joint configuration and no Jacobian.",
  [KIN, "src/kinematics/robots/mini_cheetah/p_Body_to_FrontRightFoot.cpp", "src/kinematics/robots/mini_cheetah/Jp_Body_to_FrontRightFoot.cpp"], [("generated kinematics", KIN)], None, ["get_kin_pos()", "get_J()", "get_init_velocity()"])
p("P23", "State container: setters, getters and augmentation address the same quantity",
  "Every setter of the state container changes exactly the quantity its getter returns and nothing else, for any number of augmented vectors, including covariances of each component. Adding an augmented vector appends it with its process noise and keeps all other mean, covariance and noise entries; removing one deletes exactly its entries and moves the later ones up, updating every index handed out. World and body views (velocity R'v and position R'p in the body frame) and the inverse are consistent for every content, and clearing restores mean, biases, covariance, noise and body rate of a new state.",
  ["inputs", "histories"], "every sequence of container operations with any contents and any number of augmented vectors",
  "No existing test augments, removes or clears a state.",
  [ST, "include/drift/state/robot_state.h"], [("block layout of mean, covariance, noise", ST)], None, ["RobotState getters"])
p("P24", "Lie-group functions satisfy their defining identities for every argument",
  "The rotation exponential and its integrals of every order, the SE_K(3) exponential, the Jacobians, the skew operator and the adjoint equal their defining power series or identities for all arguments, from exactly zero through vanishingly small to many turns, to near double precision. Exponentials are valid group elements, composition and inverse of the SE_K(3) class agree with the matrix group, the adjoint is a homomorphism satisfying Exp(Ad_X v) = X Exp(v) X^-1, and a function's value changes continuously with its argument.",
  ["inputs"], "every finite argument and order, any K",
  "The existing test adds two numbers; the group functions are only used indirectly at moderate angles.",
  [LIE], [("closed forms with small-angle branch", LIE)], None, ["return values"])
p("P25", "Configuration: every documented key takes effect, every absent key defaults",
  "Each setting shown in the shipped configuration files of a component changes exactly the quantity it names, when present with any valid value, and a component configured from a file without it behaves as with the default. Standard deviations act as their squares, rotations as unit quaternions in w-x-y-z order, and settings of one component never affect another.",
  ["configurations"], "every subset of keys present and every valid value",
  "The existing test reads two fixed files.",
  [PROP, VEL, LEG, EST, FIL], [("YAML loading with defaults in the constructors", EST)], None, ["effect on results"])
p("P26", "Measurement containers return what was stored and reject invalid rotations",
  "Every measurement object returns exactly the values, timestamps, headers and type it was given, and derived values (magnitude, unit vector, rotation matrix, pose matrix) agree with them for all inputs, zero included. A quaternion whose squared norm differs from one by 1e-5 or more is rejected and leaves the object unchanged, and any other is accepted.",
  ["inputs"], "every value stored, including boundary norms and zero vectors",
  "Existing tests store a few hand-picked values and skip several types and fields.",
  ["src/measurement/measurement.cpp", "src/measurement/legged_kinematics.cpp", "include/drift/measurement/impl/imu_impl.cpp", "include/drift/measurement/impl/velocity_impl.cpp", "include/drift/measurement/impl/angular_velocity_impl.cpp", "include/drift/measurement/impl/joint_state_impl.cpp", "include/drift/measurement/impl/contact_impl.cpp", "include/drift/measurement/odom.h"], [("typed setters/getters", "include/drift/measurement")], None, ["getters", "exceptions"])
p("P27", "ROS subscribers convert every message faithfully into its own buffer",
  "Each received message becomes exactly one measurement, with the message's stamp and sequence, in the buffer returned for its topic and no other, in arrival order and under that buffer's lock. Values are the documented conversions: IMU fields as given (orientation ignored when absent, offset added for the offset variant), wheel rates to forward speed and yaw rate by the differential-drive model, leg joints and contacts leg by leg, and odometry to the body-frame velocity between successive poses of the same source with that source's own mounting (the first message of a source yields none). Several subscriptions, even of one topic or kind, never influence each other.",
  ["inputs", "histories", "configurations"], "every message content, ordering, and combination of subscribed topics",
  "The ROS wrapper is not built or tested here.",
  [SUB, "ROS/drift/include/communication/ros_subscriber.h"], [("callbacks bound per topic", SUB)], None, ["buffers returned by the adders"])
p("P28", "ROS publisher: each state published once, in order, with the right fields",
  "Each published state taken from the queue yields exactly one pose message, in order, with the state's timestamp, world position and orientation, the configured frame, consecutive sequence numbers, and a covariance ordered position then rotation. The path contains every n-th pose, n being the ratio of pose to path rate, in order and with the same content, an empty queue publishes nothing, topics, frame and rates are the configured ones (or the defaults), and both threads end when ROS shuts down.",
  ["histories", "schedules", "configurations"], "every sequence of states, rates and empty polls",
  "The ROS wrapper is not built or tested here.",
  [PUB, "ROS/drift/include/communication/ros_publisher.h"], [("PosePublish/PathPublish", PUB)], None, ["messages published"])
p("P29", "Wheel-odometry baseline dead-reckons pairs of measurements in order",
  "A step consumes the oldest velocity and the oldest angular-velocity measurement together or, if either is missing, nothing. The first pair only sets the clock; every later pair moves the pose by the measured body velocity and rotates it by the measured rate over the time since the previous pair, whatever the timestamps (zero included), leaving a valid pose. The pose log, when enabled, is rate-limited and matches the pose.",
  ["histories", "inputs"], "every arrival pattern and timestamp sequence of both sources",
  "The baseline is not built or tested here.",
  [WO, "baselines/include/wheel_odometry/wheel_odometry.h"], [("paired pop and Euler/exponential integration", WO)], None, ["pose log", "queue lengths"])
p("P30", "Generic observation updates are the invariant Kalman update, either side",
  "The public updates for an observation that is linear in the right- or in the left-invariant error (CorrectRightInvariant, CorrectLeftInvariant), given any innovation, Jacobian and noise covariance, on a filter whose covariance is kept in either error convention, perform the invariant Kalman update: the gain is computed in the coordinates of the observation, the mean moves by the group exponential of the correction on that side, the covariance is the Joseph-form posterior expressed again in the filter's own convention at the updated state, the biases move by their part of the correction, and without bias estimation the bias block is first decorrelated and set to its fixed small value. For right-invariant observations the yaw-rate bias is held, with a fixed small variance. An uninformative observation leaves mean and covariance (nearly) unchanged.",
  ["inputs", "configurations"], "every state, number of tracked feet, covariance, innovation, Jacobian of any number of rows, noise covariance, both error conventions, bias estimation on or off",
  "No test calls either update; the right-sided one is reached with one kind of Jacobian by the velocity test and the left-sided one never.",
  [KF, "include/drift/filter/inekf/inekf.h"], [("gain, exponential-map update, adjoint mapping before and after", KF)], None, ["get_X()", "get_theta()", "get_P()"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
