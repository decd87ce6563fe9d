NA = {}
PROPS = []
def P(id, title, statement, over, qtext, why, files, mech, observe, technique, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe, technique=technique, **kw))
S = "nyx-core/src/"

P("C01", "Propagation lands exactly on the requested epoch",
  "Any sequence of propagation requests (by duration or until an epoch, forward, backward or zero, with a trajectory, publishing each state, or neither) leaves the propagator at exactly the requested epoch to the nanosecond, with the state it returned. The trajectory it builds starts and ends exactly at the two ends of the request, in strictly increasing time, with every step within the configured step bounds. The motion between calls is continuous: splitting a request gives the same motion as one request.",
  ["histories", "inputs", "configurations"],
  "every integrator, fixed or adaptive step, call form, and sequence of durations of either sign, whole or fractional numbers of steps",
  "The stable tests never propagate; even the kernel-based ones use a handful of whole-day forward spans on fresh instances.",
  [S+"propagators/instance.rs", S+"propagators/propagator.rs", S+"propagators/options.rs", S+"md/trajectory/traj.rs"],
  [("final partial step and step-size restoration", S+"propagators/instance.rs propagate")],
  ["PropInstance::for_duration", "until_epoch", "for_duration_with_traj", "PropInstance::state"],
  "exhaustive enumeration of request sequences on the real propagator vs an analytic model")

P("C02", "Two-body propagation is Keplerian motion for every integrator",
  "With point-mass gravity only, the propagated position and velocity agree with the analytic two-body solution to the accuracy the tolerance (or fixed step) calls for, for elliptic and hyperbolic orbits, forward and backward, under every integrator and error controller. Propagating out and back returns to the initial state. With fixed steps, each integrator converges at no less than its nominal order.",
  ["inputs", "configurations"],
  "every integrator, error control, tolerance, direction and span over a zoo of orbits",
  "No stable test integrates anything; a wrong tableau coefficient or step-control expression only shows up numerically on specific orbits.",
  [S+"propagators/instance.rs", S+"propagators/error_ctrl.rs", S+"propagators/rk_methods/rk.rs", S+"propagators/rk_methods/dormand.rs", S+"propagators/rk_methods/verner.rs", S+"dynamics/orbital.rs"],
  [("Runge-Kutta step and tableaux", S+"propagators/rk_methods/mod.rs"), ("adaptive error control", S+"propagators/error_ctrl.rs")],
  ["PropInstance::for_duration"],
  "exhaustive grid enumeration on the real integrators vs universal-variable Kepler model")

P("C03", "Step control obeys its bounds and instances survive interruptions",
  "Every accepted adaptive step lies within the minimum and maximum step and meets the tolerance, unless it is already at the minimum step or out of attempts; the error measured is the one documented for the chosen error control, and the attempts reported are those of that step. Dynamics that yield values which are not numbers are an error, never a panic nor a NaN state. Whatever happened before on a propagator instance (a dynamics failure at any evaluation, an event stop, a backward leg, an integration frame), the next requests behave as on a fresh instance started from the same state: they terminate, land on the requested epoch, in the caller's frame, with correct motion.",
  ["histories", "fault_sequences", "configurations"],
  "every fault point in a propagation, every event stop, every following pair of requests; every step of adaptive runs over controllers, tolerances, bounds and attempts",
  "Tests never inject a failure in the dynamics or reuse an instance after an interruption.",
  [S+"propagators/instance.rs", S+"propagators/error_ctrl.rs", S+"propagators/options.rs"],
  [("step-size bookkeeping", S+"propagators/instance.rs propagate/derive")],
  ["PropInstance::single_step", "latest_details", "for_duration_with_traj", "until_event"],
  "exhaustive fault-point and history enumeration on the real propagator vs a fresh-instance model")

P("C04", "The state transition matrix is the derivative of the flow",
  "When the state transition matrix is enabled, the propagated matrix equals the partial derivatives of the final state with respect to the initial state (position, velocity, Cr, Cd), for every force model that provides partials, forward and backward. Matrices over consecutive spans compose into the matrix of the whole span, and enabling the matrix does not change the propagated state.",
  ["inputs", "configurations", "histories"],
  "orbits, force model combinations, integrators, step modes, spans and their splits",
  "The stable tests never propagate an STM.",
  [S+"dynamics/spacecraft.rs", S+"dynamics/orbital.rs", S+"dynamics/gravity_field.rs", S+"dynamics/solarpressure.rs", S+"cosmic/spacecraft.rs"],
  [("variational equations", S+"dynamics/spacecraft.rs eom/dual_eom")],
  ["State::stm after propagation"],
  "exhaustive grid enumeration vs finite differences of the real flow")

P("C05", "Event search stops at the requested occurrence of the event",
  "Propagating until the n-th occurrence of an event, forward or backward, returns the state at that occurrence to the event's time precision, evaluated in the requested event frame, together with a chronological trajectory that starts at the initial state and covers the event. If the event occurs fewer than n times within the allowed span it returns an error reporting how many occurrences there were.",
  ["inputs", "configurations"],
  "orbits, event kinds and frames, occurrence numbers, directions, and spans that end just before or just after an occurrence",
  "No stable test searches for an event in a propagation.",
  [S+"propagators/event.rs", S+"propagators/instance.rs", S+"md/trajectory/traj.rs"],
  [("crossing counter and Brent refinement", S+"propagators/event.rs")],
  ["PropInstance::until_event", "until_nth_event"],
  "exhaustive grid enumeration vs all event crossings of the analytic motion")

P("C06", "Accelerations are the physical models, with matching partials",
  "Every acceleration model returns the physics it is named after: two-body, third-body (direct minus indirect term), and spherical-harmonic gravity equal to the gradient of the potential for the requested degree and order. This holds for every position, epoch and integration frame axes. The partials each model reports are the derivatives of its acceleration, and combining models adds their accelerations.",
  ["inputs", "configurations"],
  "positions including the poles, degree and order pairs, epochs, third-body sets, and integration frame axes",
  "No stable test evaluates an acceleration.",
  [S+"dynamics/orbital.rs", S+"dynamics/gravity_field.rs", S+"dynamics/mod.rs"],
  [("point masses", S+"dynamics/orbital.rs PointMasses"), ("harmonics recursion", S+"dynamics/gravity_field.rs eom/dual_eom")],
  ["AccelModel::eom", "AccelModel::dual_eom", "OrbitalDynamics::eom"],
  "exhaustive grid enumeration of the real models vs independent potential model")

P("C07", "Drag, solar pressure and shadows act as physics dictates",
  "Drag opposes the velocity relative to the rotating atmosphere with magnitude half rho v squared Cd A for the density model selected. Solar radiation pressure points away from the Sun with the configured flux, scales with Cr, area, inverse mass and inverse square distance, and is proportional to the visible fraction of the Sun behind every configured shadow body. Forces are in the axes of the integration frame, add up, and mass, Cr and Cd estimates act as flags say.",
  ["inputs", "configurations"],
  "altitudes across every density layer, Sun directions across full light, penumbra and umbra, spacecraft parameters, frames, force combinations",
  "No stable test evaluates a force.",
  [S+"dynamics/drag.rs", S+"dynamics/solarpressure.rs", S+"cosmic/eclipse.rs", S+"dynamics/spacecraft.rs"],
  [("density and drag", S+"dynamics/drag.rs"), ("SRP and shadow", S+"dynamics/solarpressure.rs, "+S+"cosmic/eclipse.rs")],
  ["ForceModel::eom", "ForceModel::dual_eom", "ShadowModel::compute", "SpacecraftDynamics::eom"],
  "exhaustive grid enumeration of the real models vs independent force model")

P("C08", "Gravity field files load exactly the coefficients they contain",
  "Loading a gravity field from COF, SHADR or GUNZIP text, compressed or not, directly or from a configuration, gives exactly the normalised coefficients of the file up to the requested degree and order, whatever the order of its lines, in the requested frame. Requests beyond the content and malformed files yield an error, never a panic or a silently different field.",
  ["inputs", "configurations"],
  "file formats, degree and order requests, line orders, compression, and a malformation of every line",
  "The stable tests load one file of each format and only look at a few coefficients.",
  [S+"io/gravity.rs", S+"dynamics/gravity_field.rs"],
  [("COF and SHADR parsers", S+"io/gravity.rs")],
  ["GravityFieldData::from_cof", "from_shadr", "from_config", "cs_nm"],
  "exhaustive enumeration of generated gravity files, loads and malformations vs a file model")

P("C09", "Trajectories are chronological sets of states under every operation",
  "A finalized trajectory is in strictly increasing time, with exactly one state per epoch that was inserted (the first one inserted), whatever the insertion order; filtering keeps exactly the states within the bounds, whether included, excluded or open. Adding two trajectories in the same frame keeps every state of the first, and those of the second outside its span; different frames are an error. Iterating, resampling and rebuilding yield exactly the requested epochs, or an error when outside the trajectory.",
  ["histories", "inputs"],
  "insertion orders with duplicates, range bounds, pairs of trajectories, steps and windows, and sequences of operations",
  "No stable test covers duplicates, excluded bounds, or adding an earlier or empty trajectory.",
  [S+"md/trajectory/traj.rs", S+"md/trajectory/traj_it.rs"],
  [("finalize, filters, addition, iteration", S+"md/trajectory/traj.rs")],
  ["Traj::finalize", "filter_by_epoch", "filter_by_offset", "Traj + Traj", "every_between", "resample", "rebuild"],
  "exhaustive enumeration of operation sequences on the real trajectory vs a list model")

P("C10", "Trajectory interpolation is exact at samples and accurate between",
  "Evaluating a trajectory at a stored epoch returns the stored state; between two stored epochs it returns the motion at that exact epoch, in the trajectory frame, to interpolation accuracy. Propellant mass lies on the line between the two surrounding samples, and constants and guidance mode are those of a surrounding sample. Outside the trajectory, even by one nanosecond, evaluation is an error, whatever the number of samples.",
  ["inputs"],
  "numbers of samples around the interpolation window, spacing patterns, orbits, and evaluation epochs in every interval",
  "No stable test interpolates a trajectory.",
  [S+"md/trajectory/traj.rs", S+"md/trajectory/interpolatable.rs"],
  [("window selection", S+"md/trajectory/traj.rs at"), ("Hermite interpolation", S+"md/trajectory/interpolatable.rs")],
  ["Traj::at"],
  "exhaustive grid enumeration of the real interpolation vs analytic motion")

P("C11", "Trajectories survive export and conversion unchanged",
  "Writing a trajectory to Parquet and loading it back restores every state: epoch to the microsecond whatever its time scale, position, velocity, frame, dry and propellant masses, Cr, Cd, thruster, guidance mode and thrust direction. The exported rows and columns are those requested; OEM and ephemeris exports hold the same states, loading from an SPK gives its positions at the requested epochs, and frame conversion transforms each state and is reversible. The difference of two trajectories is exported over their common time within the requested window, as their radial, in-track and cross-track differences (running median over five) and differences in value; nothing to export is an error, as are torn or malformed files.",
  ["inputs", "configurations"],
  "frames, time scales, thruster and thrust direction patterns, export windows, steps and field selections, formats",
  "The stable tests reload three OEM files and no Parquet trajectory.",
  [S+"md/trajectory/sc_traj.rs", S+"md/trajectory/traj.rs", S+"io/mod.rs", S+"cosmic/spacecraft.rs"],
  [("Parquet export and import", S+"md/trajectory/traj.rs to_parquet, "+S+"md/trajectory/sc_traj.rs from_parquet")],
  ["Traj::to_parquet", "from_parquet", "to_oem_file", "from_oem_file", "to_frame", "from_bsp"],
  "exhaustive enumeration of contents and export requests, round trip vs model")

P("C12", "Tracking arcs keep exactly the measurements each operation selects",
  "A tracking arc is one record per epoch and tracker, in time order, each with every observable inserted for it, whatever the insertion or merge order. Windows by epoch or offset (included, excluded or open bounds), tracker and type selections and exclusions, rejections and chunks affect exactly the measurements they name and keep settings; moduli wrap only their type. Downsampling averages each tracker alone at the requested rate; equality, observation vectors and availability reflect the types present.",
  ["histories", "inputs"],
  "insertion orders, sequences of arc operations, range bounds, moduli and downsampling ratios",
  "No stable test builds or edits a tracking arc.",
  [S+"od/msr/trackingdata/mod.rs", S+"od/msr/measurement.rs"],
  [("arc operations", S+"od/msr/trackingdata/mod.rs"), ("records", S+"od/msr/measurement.rs")],
  ["TrackingDataArc::sort", "filter_by_*", "exclude_*", "reject_by_*", "Add", "chunk", "downsample", "apply_moduli", "Measurement::observation"],
  "exhaustive enumeration of operation sequences on the real arc vs a map model")

P("C13", "Tracking data survives Parquet and CCSDS TDM files unchanged",
  "Writing an arc to Parquet or CCSDS TDM and reading it back restores every measurement: epoch whatever its time scale, tracker, exactly the observables that were present, and their values. Reading a TDM honours time system, path (only range and Doppler are halved when two way), corrections, range modulus, aliases, and turns transmit and receive frequencies with ramps into Doppler; the export window is respected. Malformed, missing or empty inputs are errors, never panics.",
  ["inputs", "configurations"],
  "presence patterns of observables, time scales, export windows, TDM headers, data orders, frequency ramp histories, malformations",
  "The only stable test of these files reads one frequency ramp.",
  [S+"od/msr/trackingdata/io_parquet.rs", S+"od/msr/trackingdata/io_ccsds_tdm.rs"],
  [("Parquet", S+"od/msr/trackingdata/io_parquet.rs"), ("CCSDS TDM", S+"od/msr/trackingdata/io_ccsds_tdm.rs")],
  ["TrackingDataArc::to_parquet", "from_parquet", "to_tdm_file", "from_tdm"],
  "exhaustive enumeration of arcs and TDM texts, round trip and vs a file model")

P("C14", "The Kalman filter update is the textbook algebra, for every history",
  "Whatever the sequence of time updates, measurement updates, rejections and process noises, the filter's estimate, covariance, gain, prefit, postfit and residual ratio equal the Kalman equations (deviation tracking or reference update) to rounding. Process noise enters only for gaps within its disable time, with its decay and local frame; the covariance stays symmetric and positive. A measurement beyond the residual threshold or marked as rejected leaves the estimate at its prediction; types absent from a measurement do not affect the estimate. Setting a process noise replaces those configured before, appending one keeps them (the last one applicable is used), and one too large for the state is an error.",
  ["histories", "inputs", "configurations"],
  "sequences of updates up to a depth, filter variants, process noise sets, sensitivities, rejections, measurement sizes",
  "The stable tests only check that a filter errors when used out of order.",
  [S+"od/kalman/filtering.rs", S+"od/snc.rs", S+"od/kalman/mod.rs", S+"od/estimate/residual.rs"],
  [("time and measurement update", S+"od/kalman/filtering.rs"), ("process noise", S+"od/snc.rs")],
  ["KalmanFilter::time_update", "measurement_update", "ProcessNoise::to_matrix/propagate"],
  "exhaustive enumeration of update sequences on the real filter vs a reference algebra")

P("C15", "Processing a tracking arc equals filtering its measurements in order",
  "Processing an arc applies exactly its measurements, in time order, each once, to the propagated estimate of its own device and epoch: the solution has one estimate and residual per accepted or rejected measurement plus time updates, equal to those of a sequential filter on the same dynamics, with the known bias of each device removed. Measurements before the initial estimate, of unknown devices or marked as rejected do not change it. Time updates never exceed the maximum step, predictions end exactly at the requested epoch, and an invalid step is an error.",
  ["histories", "inputs", "configurations"],
  "arcs of measurements of several devices and types, start offsets, filter variants, rejections, maximum steps, predictions",
  "No stable test processes an arc.",
  [S+"od/process/mod.rs", S+"od/process/rejectcrit.rs", S+"od/kalman/filtering.rs"],
  [("sequential processing", S+"od/process/mod.rs process_arc"), ("prediction", S+"od/process/mod.rs predict_until")],
  ["KalmanODProcess::process_arc", "predict_until", "predict_for"],
  "exhaustive enumeration of arcs on the real process vs a reference sequential filter")

P("C16", "Tracking devices measure the geometry, and their partials match",
  "A ground station measures range, range rate, azimuth and elevation of the receiver in its ellipsoid topocentric frame, in whatever frame or around whatever body the receiver is; a spacecraft link measures range and range rate; a position device its axes; a ground asset, moving or not, range and range rate to the transmitter. There is a measurement exactly when the receiver is above the mask and not behind a body, over the whole integration time, averaged over it. Partials are the derivatives of the model, whatever the measured values; an unsupported type or frame, or a time at which the transmitter is unknown, is an error. The built-in DSN stations stand at their antennas.",
  ["inputs", "configurations"],
  "devices, sites, orbits, epochs, masks, integration times, subsets and orders of measurement types",
  "The stable tests never take a measurement.",
  [S+"od/ground_station/trk_device.rs", S+"od/msr/types.rs", S+"od/msr/sensitivity.rs", S+"od/interlink/trk_device.rs", S+"od/interlink/sensitivity.rs", S+"od/position/trk_device.rs", S+"od/position/sensitivity.rs", S+"od/groundpnt/trk_device.rs", S+"od/groundpnt/sensitivity.rs", S+"od/groundpnt/mod.rs"],
  [("measurement models", S+"od/ground_station/trk_device.rs, "+S+"od/interlink/trk_device.rs"), ("partials", S+"od/msr/sensitivity.rs")],
  ["TrackingDevice::measure", "measure_instantaneous", "measurement_covar_matrix", "TrackerSensitivity::h_tilde"],
  "exhaustive grid enumeration of the real devices vs independent geometry and its finite differences")

P("C17", "Batch least squares returns the minimum of the weighted residuals",
  "On success, the batch estimate is at the epoch and frame of the guess and minimises the sum of squared weighted residuals of exactly the usable measurements: those not rejected, of a known device that sees the spacecraft, from the epoch of the guess onwards, including several at one epoch and those with only some types. Its covariance is the inverse information matrix and its RMS that of the residuals, which evaluating any state reproduces. Levenberg-Marquardt reaches the same minimum and the undamped covariance whatever its damping, recovering from steps it rejects. Too few or non-finite measurements are an error.",
  ["histories", "inputs", "configurations"],
  "positions and kinds of one or two special measurements in arcs of two trackers, solvers, steps, initial errors",
  "No stable test runs a batch estimation.",
  [S+"od/blse/mod.rs", S+"od/blse/solution.rs"],
  [("normal equations and Levenberg-Marquardt iterations", S+"od/blse/mod.rs estimate")],
  ["BatchLeastSquares::estimate", "BatchLeastSquares::evaluate"],
  "exhaustive enumeration of arcs on the real estimator vs a reference gradient and covariance")

P("C18", "OD solutions keep their records intact through every operation",
  "Each record of an orbit determination solution (estimate, residual, gain, smoother ratio) stays whole: filtering, excluding, splitting, dropping time updates, merging (chronological, devices and types of both) and looking up an epoch return exactly the records selected. RMS, fractions, KS, NIS and NEES are those of exactly the residuals or estimates they name. Exporting to Parquet, whole or a time window, and reloading restores every record; sigmas are those of the covariance in the integration and RIC frames.",
  ["histories", "inputs", "configurations"],
  "sequences of records, of operations on them, pairs of interleaved solutions, export windows, orders of measurement types",
  "No stable test builds a solution.",
  [S+"od/process/solution/filter_data.rs", S+"od/process/solution/mod.rs", S+"od/process/solution/stats.rs", S+"od/process/solution/export.rs", S+"od/process/solution/import.rs"],
  [("selection and merge", S+"od/process/solution/filter_data.rs"), ("statistics", S+"od/process/solution/stats.rs"), ("storage", S+"od/process/solution/export.rs, import.rs")],
  ["ODSolution::merge", "split", "filter_by_*", "at", "rms_*", "ks_test_normality", "nis_consistency", "nees_consistency", "to_parquet", "from_parquet", "to_traj", "to_ephemeris"],
  "exhaustive enumeration of record lists and operation sequences on the real type vs a list model")

P("C19", "Smoothing maps the final estimate back over the whole arc",
  "Without process noise, smoothing gives at every epoch of the solution the last estimate and covariance mapped through the state transition between both epochs. It keeps every record at its epoch, with the residual of that same epoch recomputed from the smoothed state, drops gains, and reports the filter-smoother consistency of each component; the smoothed uncertainty never exceeds the filter's. Solutions of one estimate are unchanged; an empty one is an error.",
  ["histories", "configurations"],
  "arcs of measurements of several kinds, spacings, filter variants, measurement sizes and rejections",
  "No stable test smooths a solution.",
  [S+"od/process/solution/smooth.rs"],
  [("backward recursion", S+"od/process/solution/smooth.rs")],
  ["ODSolution::smooth"],
  "exhaustive enumeration of arcs on the real filter and smoother vs an independent state transition")

P("C20", "Simulated tracking is exactly what the strands and the geometry allow",
  "Simulating a tracking arc yields, for each configured device, a measurement at every sampling instant of every strand of its schedule at which that device sees the spacecraft, and at no other time: strand bounds included, none twice, none beyond the trajectory, each with the device's types and the geometry of that epoch. Devices without a valid configuration never measure, unknown configured devices are refused, and the same seed always gives the same arc.",
  ["histories", "configurations", "inputs"],
  "sets of strands over a grid of instants, samplings, one or two devices, subsets of configured and of validly configured devices, orbits, seeds",
  "The stable tests never simulate a tracking arc.",
  [S+"od/simulator/arc.rs", S+"od/simulator/trkconfig.rs"],
  [("simulation over strands", S+"od/simulator/arc.rs generate_measurements")],
  ["TrackingArcSim::with_seed", "generate_measurements"],
  "exhaustive enumeration of strand sets and devices on the real simulator vs a list model")

P("C21", "Generated schedules are the visibility passes, handed off as configured",
  "Building a schedule gives each scheduled device one strand per interval during which the spacecraft is above its horizon, cut by the configured handoff: overlap keeps every strand, eager moves to the newcomer at its start, greedy keeps the tracker until its strand ends; whatever the number of simultaneous trackers. Strands of handed off devices do not overlap, stay within the trajectory, are never reversed, and respect the sample alignment, cadence and minimum samples. Explicitly given strands are kept.",
  ["histories", "configurations", "inputs"],
  "orbits, up to four sites, handoffs, cadences, alignments, minimum samples",
  "The stable tests never build a schedule.",
  [S+"od/simulator/arc.rs", S+"od/simulator/scheduler.rs", S+"od/simulator/trkconfig.rs"],
  [("schedule generation and handoffs", S+"od/simulator/arc.rs generate_schedule, build_schedule")],
  ["TrackingArcSim::generate_schedule", "build_schedule"],
  "exhaustive enumeration of sites, handoffs and cadences on the real scheduler vs independent passes")

P("C22", "Measurement noise and biases are those configured, once each",
  "A device adds to each observable the noise it is configured with: white noise of its mean and sigma, a Gauss-Markov bias starting at its constant or random initial value, nothing at all when noiseless; the same random generator always gives the same values. Measurement covariances are the squared sigmas, in the order of the types asked for; constant biases are reported per type and are added exactly once to the computed observation by the filter, the smoother and batch least squares. Missing noises are an error.",
  ["inputs", "configurations", "histories"],
  "noise models, subsets and orders of types, devices, integration times, estimators",
  "The stable tests only look at the spread of long series.",
  [S+"od/noise/mod.rs", S+"od/noise/white.rs", S+"od/noise/gauss_markov.rs", S+"od/noise/link_specific.rs", S+"od/ground_station/builtin.rs", S+"od/ground_station/trk_device.rs", S+"od/interlink/trk_device.rs", S+"od/position/trk_device.rs", S+"od/process/mod.rs", S+"od/blse/mod.rs"],
  [("stochastics", S+"od/noise/"), ("bias in the computed observation", S+"od/process/mod.rs, "+S+"od/blse/mod.rs")],
  ["StochasticNoise::sample", "covariance", "TrackingDevice::measurement_bias", "measurement_covar_matrix", "measure"],
  "exhaustive enumeration of noise models and devices on the real code vs a reference noise model")

P("C23", "Configurations survive their encodings, and cut ones are refused",
  "Ground stations, noises, tracking configurations (schedulers, cadences, handoffs, strands in any time scale), thrusters and spacecraft written as ASN.1 DER or YAML, alone, listed or named, in files or strings, are read back exactly: every optional field, order of types and nanosecond. Every strict prefix of a DER encoding, or anything appended, is refused without a panic; dynamics, propagator options, maneuvers and objectives do so in YAML and Dhall, and mission sequences in YAML. An unreadable duration, epoch or choice is an error and never a default.",
  ["inputs", "configurations", "crash_points"],
  "optional fields and edge values of each type, every prefix and corrupted byte of the encodings",
  "The stable tests round trip one or two values of some types.",
  [S+"io/mod.rs", S+"od/simulator/trkconfig.rs", S+"od/simulator/scheduler.rs", S+"od/noise/mod.rs", S+"od/noise/gauss_markov.rs", S+"od/ground_station/mod.rs", S+"cosmic/spacecraft.rs", S+"dynamics/guidance/mod.rs", S+"dynamics/sequence/config.rs", S+"dynamics/guidance/mnvr.rs"],
  [("ASN.1 codecs", S+"od/simulator/trkconfig.rs, "+S+"od/ground_station/mod.rs"), ("YAML", S+"io/mod.rs ConfigRepr")],
  ["Encode/Decode", "ConfigRepr::load*", "serde (YAML, Dhall)"],
  "exhaustive enumeration of values, truncations and corruptions through the real codecs (identity oracle)")

P("C24", "Finite burns thrust exactly from their start to their end",
  "A finite burn applies the throttled thrust of the thruster along its direction (a fixed vector or angles polynomial in time, in inertial, VNC, RCN or RIC axes) during exactly the integrator steps which begin at or after its start and before its end, hence exactly from start to end when steps or legs stop there, whatever the integrator, the cutting into legs and the initial guidance mode; the propellant decreases by the mass flow of the burn, if at all, and the dry mass never changes. The trajectory records mode and thrust direction of each epoch, and replaying it flies the same commands, piecewise constant and none outside of it. Throttles outside of [0, 1], directions which are not unit vectors, missing thrusters, dry tanks and state transition matrices under guidance are errors.",
  ["histories", "inputs", "configurations", "fault_sequences"],
  "cuts of the propagation, integrators, frames, steerings, burn windows, replay patterns, invalid burns",
  "The stable tests only serialise a maneuver.",
  [S+"dynamics/guidance/mnvr.rs", S+"dynamics/guidance/replay.rs", S+"dynamics/guidance/mod.rs", S+"dynamics/spacecraft.rs"],
  [("burn logic", S+"dynamics/guidance/mnvr.rs GuidanceLaw for Maneuver"), ("thrust and mass flow", S+"dynamics/spacecraft.rs eom, finally")],
  ["SpacecraftDynamics::from_guidance_law", "Propagator", "Maneuver", "ThrustDirectionReplay"],
  "exhaustive enumeration of leg cuts, burns and replay patterns on the real propagator vs independent integration")

P("C25", "Closed-loop guidance steers each element straight to its target",
  "For every orbit, anomaly and sense, the Ruggiero and Kluever laws steer a single objective (semi-major axis, eccentricity, inclination, RAAN and, for Kluever, equinoctial h, k, p, q) along the unit vector which changes that element the fastest toward its target; several objectives are blended with their weights, and those on target or without weight have no influence. They thrust only in thrust mode, above the efficiency threshold (the rate of change over the best one of the orbit), off target and outside of eclipses beyond the limit, so that in flight the error never grows and the engine stops once the objectives are met. Inhibited guidance stays inhibited, and unsupported objectives or too many, too few of them or of their thresholds are errors.",
  ["inputs", "configurations", "histories"],
  "grid of orbits and anomalies, objectives and pairs, mode tables, thresholds, closed-loop flights",
  "The stable tests check one direction of each law at one state.",
  [S+"dynamics/guidance/ruggiero.rs", S+"dynamics/guidance/kluever.rs", S+"md/objective.rs", S+"dynamics/spacecraft.rs"],
  [("steering", S+"dynamics/guidance/ruggiero.rs direction, "+S+"dynamics/guidance/kluever.rs direction"), ("mode switching", "GuidanceLaw::next")],
  ["Ruggiero", "Kluever", "GuidanceLaw::{direction,throttle,next,achieved}", "Propagator"],
  "exhaustive enumeration of orbits, objectives and modes on the real laws vs numerical gradients of the elements")
P("C26", "A mission sequence flies each enabled phase on time, with its own dynamics",
  "For every sequence of phases, `SpacecraftSequence::propagate` returns, in order, one trajectory per enabled phase, with its name, from the epoch at which the phase starts to the start of the next enabled phase (or the end, or the phase until which it is asked to fly), and each continues from the last state of the previous one; the phase in progress at the epoch of the state is resumed without repeating its entry event, and a disabled phase is as if it were not there. Entry events change exactly what they say, once: impulses in their local frame, increments and decrements of masses, areas and coefficients, frame changes with translation and rotation; and each phase is integrated with the models, method and options of its propagator in the latest setup, with its guidance law, thruster set and propellant accounting. Sequences without a final Terminate, or which name an unknown propagator or thruster set, or which were not set up, are errors and never panics.",
  ["inputs", "histories", "configurations"],
  "all sequences of up to 2 phases of 12 kinds x enabled or not (3 of 6 kinds), start epochs, stop phases, model subsets x methods",
  "The only tests of sequences are ignored, and run one sequence from its first epoch.",
  [S+"dynamics/sequence/mod.rs", S+"dynamics/sequence/config.rs", S+"dynamics/sequence/discrete_event.rs"],
  [("phases", S+"dynamics/sequence/mod.rs propagate"), ("setup", S+"dynamics/sequence/config.rs build")],
  ["SpacecraftSequence::{validate,setup,propagate}", "PropagatorConfig::build"],
  "exhaustive enumeration of phase sequences, start epochs and stops on the real code vs phase-by-phase reference flights")
P("C27", "Dispersed states and initial uncertainties have the requested statistics",
  "For every set of dispersed parameters (orbital elements, B-plane, coefficients, propellant mass) with or without means, and for every positive semi-definite covariance, the states drawn from an `MvnSpacecraft` are an affine function of independent standard normal draws whose mean and covariance are the requested ones mapped to the Cartesian state, nothing else is changed, and the dispersions each sample reports are its differences to the template; covariances which are not positive semi-definite and parameters which cannot be dispersed are errors. `KfEstimate` agrees: the 1-sigma of each element and the Keplerian covariance are the covariance mapped by the derivatives of the elements, `within_sigma` holds exactly when every component does, an estimate from dispersions is at the dispersed state, and an uncertainty given per axis is that diagonal covariance (rotated, if in a local frame); the same seed always gives the same sample.",
  ["inputs", "configurations"],
  "28 elements and all their independent pairs (thorough: triples) x 3 orbits x means, all orders of other parameters, 160 covariance classes x 3 orbits, 512 uncertainty subsets x 4 frames; samples for every unit draw",
  "Tests draw a thousand samples of three dispersions, and check one sigma within a few percent.",
  [S+"mc/multivariate.rs", S+"mc/dispersion.rs", S+"mc/generator.rs", S+"od/estimate/kfestimate.rs", S+"od/estimate/sc_uncertainty.rs", S+"md/param.rs"],
  [("generator", S+"mc/multivariate.rs new from_spacecraft_cov sample"), ("estimate", S+"od/estimate/kfestimate.rs"), ("uncertainty", S+"od/estimate/sc_uncertainty.rs to_estimate")],
  ["MvnSpacecraft::{new,zero_mean,from_spacecraft_cov,sample}", "KfEstimate::{from_dispersions,sigma_for,keplerian_covar,within_sigma}", "SpacecraftUncertainty::to_estimate"],
  "exhaustive enumeration of dispersion sets and covariance classes on the real sampler driven by scripted draws vs analytic moments")

P("C28", "Monte Carlo runs are independent of scheduling and of one another's failures",
  "The result of a Monte Carlo analysis is a function of its seed and configuration only: for every order in which the parallel runs complete, every number of threads and every subset of failing runs, run k starts from the k-th sampled state, its result is that of propagating that state alone, a failure is reported for that run only, and the runs are in order; running the first m and resuming for the rest flies the same states. Reports give the values of each run (first, last, every step, in a window, dispersions) in order, skip failed runs or report the replacement, and the Parquet export has every step of every successful run over its own duration, with its index.",
  ["schedules", "faults", "configurations"],
  "all completion orders x failure subsets of up to 4 runs (thorough 5), 1 to 6 threads, every split, 16 failure patterns x reports and exports",
  "Tests run on an uncontrolled thread pool and only look at counts and averages.",
  [S+"mc/montecarlo.rs", S+"mc/results.rs", S+"mc/mod.rs"],
  [("runs", S+"mc/montecarlo.rs run_until_epoch resume_run_until_epoch generate_states"), ("reports", S+"mc/results.rs")],
  ["MonteCarlo::{run_until_epoch,resume_run_until_epoch,run_until_nth_event,generate_states}", "Results::{first_values_of,last_values_of,every_value_of,every_value_of_between,dispersion_values_of,to_parquet}"],
  "stateless model checking of the real parallel runner: all completion orders and failure subsets under a controlled scheduler")

P("C29", "A Lambert solution flies from one position to the other in the given time",
  "For every pair of positions and time of flight, the velocities of `izzo` (short way, long way, automatic and multi-revolution) and, whenever it returns some, of `gooding` are those of a Keplerian orbit which goes from the first position to the second in exactly that time, in the requested direction (automatic: counter-clockwise seen from +Z) and after the requested number of revolutions; `izzo` finds every transfer there is, and refuses revolutions which cannot be done in that time; departure and arrival orbits, C3 and asymptote of the solution are those of the same velocities. Collinear positions, times which are not positive and different frames are errors, never panics nor NaN.",
  ["inputs", "configurations"],
  "transfer angles x plane orientations x distance ratios x times of flight (0.3 to 20 times the parabola; thorough: 0.05 to 60) x directions x 0 to 3 (6) revolutions x two central bodies; degenerate geometries",
  "Tests compare two textbook transfers with printed velocities.",
  [S+"tools/lambert/izzo.rs", S+"tools/lambert/godding.rs", S+"tools/lambert/mod.rs"],
  [("solvers", S+"tools/lambert/izzo.rs izzo, "+S+"tools/lambert/godding.rs gooding"), ("derived quantities", S+"tools/lambert/mod.rs")],
  ["izzo", "gooding", "LambertInput::from_planetary_states", "LambertSolution"],
  "exhaustive enumeration of transfer classes on the real solvers vs an independent universal-variable propagation and Lagrange's time equation")

P("C30", "B-plane coordinates are invariants of the approach and can be targeted",
  "For every hyperbola, the B-plane has S along the incoming asymptote, T in the reference plane and R completing a right-handed frame, B.R and B.T are the components of the impact vector, the same from anywhere on the hyperbola, with the derivatives with respect to the velocity; `try_achieve_b_plane` returns a velocity change only if it brings B.R and B.T to the target within the tolerance, and finds one for small changes from afar. The B-plane of a closed orbit is an error.",
  ["inputs", "configurations"],
  "periapsis x excess velocity x orientation x time to periapsis, targets around the B-plane point x tolerances",
  "Tests compare one B-plane with printed values.",
  [S+"cosmic/bplane.rs"],
  [("B-plane", S+"cosmic/bplane.rs new from_dual jacobian"), ("targeting", S+"cosmic/bplane.rs try_achieve_b_plane")],
  ["BPlane::new", "BPlane::{b_dot_t_km,b_dot_r_km,jacobian,jacobian2,inertial_to_bplane}", "try_achieve_b_plane"],
  "exhaustive enumeration of hyperbolas, epochs and targets on the real code vs the closed-form impact vector and numerical gradients")

P("C31", "A targeter solution achieves its objectives within its constraints",
  "Whenever a targeter (finite differencing or hyperdual) returns a solution, for every set of impulsive variables, objectives, correction frame and objective frame, the corrected state is the state propagated to the correction epoch plus the reported correction (in the correction frame at that state), its propagation to the achievement epoch is the achieved state and meets every objective within its tolerance, the reported errors are the actual ones, the correction is within the bounds, steps and iterations allowed, and `apply` confirms it; solutions close to the initial state are found. Invalid variables and objectives, undefined or unreachable objectives and any failure of the dynamics are errors, never panics. A multiple shooting solution is a chain of such legs through its nodes from the start to the destination.",
  ["inputs", "configurations", "faults"],
  "10 sets of variables x 20 sets of objectives x 5 frames x orbits x spans x 2 methods with known solutions; guesses x bounds x steps x iterations; Moon objectives; every fault point; invalid problems; shooting over nodes x spans",
  "The tests of targeters are not among the stable ones, and compare a few solutions with another tool.",
  [S+"md/opti/raphson_finite_diff.rs", S+"md/opti/raphson_hyperdual.rs", S+"md/opti/targeter.rs", S+"md/opti/target_variable.rs", S+"md/opti/solution.rs", S+"md/opti/multipleshooting/multishoot.rs", S+"md/opti/multipleshooting/equidistant_heuristic.rs", S+"md/objective.rs"],
  [("corrections", S+"md/opti/raphson_finite_diff.rs try_achieve_fd, "+S+"md/opti/raphson_hyperdual.rs try_achieve_dual"), ("verification", S+"md/opti/targeter.rs apply_with_traj"), ("multiple shooting", S+"md/opti/multipleshooting/multishoot.rs solve")],
  ["Targeter::{try_achieve_from,try_achieve_dual,apply}", "TargeterSolution", "MultipleShooting::{equidistant_nodes,solve}"],
  "exhaustive enumeration of problems, settings and fault points on the real targeters vs closed-form Keplerian flights of the returned state")

P("C32", "Ground assets move, are measured and are positioned as on the ellipsoid",
  "A ground asset moves at constant geodetic rates under `GroundDynamics` (state, trajectory and transition matrix), and its velocity, Cartesian Jacobian and great circle distances are those of its ellipsoid (sphere), whatever the site, the body and the motion. Filtering an arc of range and Doppler measurements from a transmitter in orbit gives, for every arc, variant, order of types and rejection, the estimates, covariances, gains and residuals of a six-state Kalman filter on that motion, hence the true position with enough measurements. Measurements over an integration time are the mean of both ends and exist only if both do, and exporting a solution, whole or a window, writes exactly its entries.",
  ["inputs", "histories", "configurations"],
  "sites, motions and bodies; every arc over six kinds of measurement up to the length; filter variants, window sizes, orders of types, gaps and rejection; export windows",
  "The only test of ground positioning needs kernels which are not available, and follows one lunar rover which does not move.",
  [S+"od/groundpnt/mod.rs", S+"od/groundpnt/ground_dynamics.rs", S+"od/groundpnt/trk_device.rs", S+"od/groundpnt/sensitivity.rs", S+"od/groundpnt/solution.rs", S+"od/process/mod.rs"],
  [("kinematic model", S+"od/groundpnt/ground_dynamics.rs"), ("geodetic rates and Jacobian", S+"od/groundpnt/mod.rs")],
  ["KalmanODProcess::process_arc", "GroundAsset", "ODSolution::to_parquet"],
  "exhaustive enumeration of arcs and geometries on the real filter vs a six-state reference filter")

P("C33", "Spacecraft states read and change exactly the parameters asked for",
  "Setting a parameter of a spacecraft changes that parameter to that value and nothing else (an orbital element keeps the five others, a norm keeps the direction), reading any parameter gives its definition, and read-only or unavailable parameters are errors which change nothing, after any history of changes. Converting a state to a vector and setting it back, adding a deviation, builders and copies act component by component on position, velocity, reflectivity (kept between 0 and 2), drag coefficient, propellant and transition matrix, and keep everything else. Equality and root sum square differences reflect each component.",
  ["histories", "inputs"],
  "histories of 35 parameter changes up to the depth from five orbits, with and without thruster, thrust direction and guidance mode; state vectors, deviations, builders",
  "The stable tests set a handful of elements on one orbit, once.",
  [S+"cosmic/spacecraft.rs", S+"cosmic/mod.rs", S+"md/param.rs", S+"utils.rs"],
  [("parameters", S+"cosmic/spacecraft.rs value set_value"), ("state vector", S+"cosmic/spacecraft.rs to_vector set add")],
  ["Spacecraft as State", "Spacecraft::with_*", "Spacecraft::rss"],
  "exhaustive enumeration of histories of changes on the real state vs a model of its fields")

P("C34", "Rotations, projections, angles and polynomials obey their algebra",
  "The shared mathematics behind every computation is exact to rounding for all inputs: frame rotations are orthonormal, right handed, compose, and are the inverse of rotating a vector about the same axis; a vector is the sum of its parts along and across another; wrapped angles are the same angle in the stated range; spherical coordinates, normalization and pseudo-inverses invert what they should; polynomials and their derivatives take the values of their coefficients, under sums, differences and scaling.",
  ["inputs"],
  "every vector, pair of vectors, angle, small matrix and polynomial of a grid with signs, zeros and scales",
  "Unit tests evaluate each helper on one or two inputs; quadrants, signs, zeros and orders are not covered.",
  [S+"utils.rs", S+"polyfit/polynomial.rs"],
  [("rotations, projections and angles", S+"utils.rs"), ("Horner evaluation", S+"polyfit/polynomial.rs eval_n_deriv")],
  ["utils::*", "Polynomial", "CommonPolynomial", "pseudo_inverse!"],
  "exhaustive enumeration of input grids on the real functions vs their algebraic laws")

# Further files each property is anchored in.
for _id, _more in {
    "C06": ["dynamics/solid_tides.rs"],
    "C24": ["dynamics/deltavctrl.rs", "polyfit/polynomial.rs"],
    "C31": ["md/opti/multipleshooting/mod.rs", "md/opti/multipleshooting/ctrlnodes.rs", "md/opti/multipleshooting/altitude_heuristic.rs", "md/opti/target_variable.rs"],
    "C14": ["od/kalman/initializers.rs", "od/estimate/mod.rs"],
    "C15": ["od/process/initializers.rs"],
    "C16": ["od/ground_station/builtin.rs", "od/position/mod.rs"],
    "C18": ["od/process/solution/display.rs"],
    "C20": ["od/simulator/trackdata.rs"],
    "C11": ["io/watermark.rs"],
}.items():
    for _p in PROPS:
        if _p["id"] == _id:
            _p["files"] += [S + f for f in _more if S + f not in _p["files"]]
