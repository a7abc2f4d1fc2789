"""Which harness decides which property, and how it is built."""
CHECKS = {}
NOT_APPLICABLE = {}


def check(pid, rule, technique, note, jobs, assumptions=(), **kw):
    CHECKS[pid] = dict(rule=rule, technique=technique, level_note=note, jobs=jobs, assumptions=list(assumptions), **kw)


SAN = "address+undefined-behaviour sanitizers"
REF = "runtime monitor: online comparison with an executable reference model, under " + SAN

check("C08", "Random and enumerated (container, index list) pairs over five element and five index types; a case counts when it has at least two elements, distinct by (types, list).",
      REF, "Exhaustive for all permutations of up to 7 positions and all index lists over {-1..n} of up to 5; sampled beyond. Trusts the naive model in the harness.",
      [dict(src=["c08_permute.cpp"], lib="base", scale=6, build="asan")])
check("C09", "Random dense and sparse factors and column ranges; a case counts when at least two diagonal entries enter the sum, distinct by sum and range.",
      REF, "Sampled matrices up to 80 columns; entries within rounding of the numerical-zero threshold are avoided.",
      [dict(src=["c09_matrix.cpp"], lib="base", scale=20, build="asan")])
check("C10", "Random grids (dimension 1 to 4 and dynamic; double, float, int, long) with points on borders, corners, inside, outside, not finite; a case counts per distinct (grid, cell) reached by an in-range point.",
      REF, "Sampled geometry; floating-point borders are judged with a few ulps of slack. Trusts the definition coded in the harness.",
      [dict(src=["c10_grid_a.cpp", "c10_grid_b.cpp", "c10_grid_c.cpp", "c10_grid_d.cpp"], lib="base", scale=2, build="asan")])
check("C11", "Random sample streams into histograms of 1 to 3 dimensions (int, float, double; borders, outside, not a number); a case counts when more than three samples were counted, distinct by the resulting moments.",
      REF, "Sampled streams and geometries; the bin of an in-range sample is the grid's cell (decided by C10). Trusts the moment formulas coded in the harness.",
      [dict(src=["c11_a.cpp", "c11_b.cpp"], lib="base", scale=10, build="asan")])
check("C12", "Random histories of construct / set / set matrix / inverse / copy / assign on 2d and 3d transformations, every state compared with an independent rotation-translation model; distinct by history.",
      REF, "Sampled histories of up to 9 operations; tolerance 1e-11 relative to the translation size.",
      [dict(src=["c12_transformation.cpp"], lib="base", scale=20, build="asan")])
check("C13", "Random and extreme parameters of every distribution; a case counts per distinct parameter set evaluated.",
      REF, "Sampled parameters and arguments against extended-precision formulas (own incomplete gamma, Cholesky); tolerances follow the conditioning of each formula.",
      [dict(src=["c13_a.cpp", "c13_b.cpp"], lib="base", scale=8, build="asan")])
check("C14", "Random parameter sets (supports away from zero, negative, narrow, huge; integer and real); a case counts per distinct parameter set.",
      REF, "Sampled parameters against closed forms in extended precision.",
      [dict(src=["c14_moments.cpp"], lib="base", scale=20, build="asan")])
check("C15", "Random histories of construction, valid and invalid setters, copies and assignments over three objects; a case counts per distinct operation sequence.",
      REF, "Sampled histories of 4 to 15 operations on every distribution; derived values are compared both with closed forms and with a freshly constructed object.",
      [dict(src=["c15_params.cpp"], lib="base", scale=6, build="asan")])
check("C16", "Random parameters of every sampler, drawn both from scripted extreme source values and from an ordinary stream; a case counts per distinct parameter set (and, for support, per source script).",
      REF, "The source below the samplers (random()) is replaced, so draws repeat exactly; laws are judged by Kolmogorov-Smirnov distance, cell counts and correlations with thresholds beyond six sigma, so only deviations visible in 5,000 to 20,000 draws (100,000 thorough) are detected.",
      [dict(src=["c16_support.cpp", "c16_law_a.cpp", "c16_law_b.cpp", "c16_source.cpp"], lib="base", scale=4, build="asan")])
check("C17", "Random programs of draws through every sampler and distribution, run twice from one seed with and without creation and copying of generators in between; a case counts per distinct program and seed, and per sampler met for the first time inside a sequence.",
      "runtime monitor: replay comparison of recorded draws, under " + SAN, "Sampled programs of 4 to 27 calls; different seeds are compared on four uniform draws (the C library maps seeds 0 and 1 to one sequence, which is excluded).",
      [dict(src=["c17_seed.cpp"], lib="base", scale=12, build="asan")])
check("C18", "Random histories of single points, ranges, containers, weighted batches, resets, copies and assignments on two estimators (dimension 1, 2, 3, 5; offsets, tiny spreads, not-finite points); distinct by sequence of operations.",
      REF, "Sampled histories of 3 to 12 operations against a two-pass extended-precision estimate; near-singular point sets are not judged on the validity flag.",
      [dict(src=["c18_estimators.cpp"], lib="base", scale=3, build="asan")])
check("C19", "Arguments over the domain of each function (small, half-integer, near the roots, huge; both tails of the incomplete functions), distinct by function and argument.",
      REF, "Sampled arguments (all integers up to 400) against extended-precision references; tolerances follow the conditioning of each function.",
      [dict(src=["c19_functions.cpp"], lib="base", scale=12, build="asan")])
check("C20", "Random and special instants (before and after the epoch, next to whole seconds, far away), in seven time zones including daylight saving; distinct by instants.",
      REF, "Sampled instants; arithmetic compared exactly, dates with an independent calendar, the clock bracketed by system readings.",
      [dict(src=["c20_timestamp.cpp"], lib="base", scale=15, build="asan")])
check("C21", "Random and hostile messages, locations and arguments of every exception type, thrown, caught, copied, assigned, rethrown; distinct by text and type.",
      "runtime monitor: assertions on the observed texts, under " + SAN, "Sampled strings of any byte except the terminator.",
      [dict(src=["c21_exceptions.cpp"], lib="base", scale=3, build="asan")])

TSVD = dict(lib="core", shim=True, inc=["aslam_tsvd_solver/include"], repo=["aslam_tsvd_solver/src/aslam-tsvd-solver.cc"])
EX = "incremental_calibration_examples/incremental_calibration_examples_"
TD = EX + "time_delay"
TERMS = [dict(src=["c25_terms.cpp"], lib="base", build="asan", shim=True, inc=[EX + d + "/include"], flags=["-D" + m], repo=[EX + d + "/src/" + f for f in fs])
         for d, m, fs in (("2dlrf", "EX_LRF", ("2dlrf/ErrorTermMotion.cpp", "2dlrf/ErrorTermObservation.cpp")),
                          ("car", "EX_CAR", ["error-terms/ErrorTerm%s.cpp" % t for t in ("Pose", "Steering", "Velocities", "Wheel")]),
                          ("time_delay", "EX_TD", ["error-terms/ErrorTerm%s.cpp" % t for t in ("Pose", "Wheel")]))]
EXPR = "The expression library below the terms (aslam_backend, not installed) is a stand-in: expressions are functions of the design variables, their Jacobians central differences, with the library's conventions for steps and perturbations."
check("C25", "Random error terms of every kind over plain and composed expressions, before and after moves of the variables and changes through the setters, with any variables active; distinct by kind and variable values.",
      "runtime monitor: every Jacobian block compared with step-halved difference quotients of the residual the same object reports, under " + SAN,
      "Sampled operating points; points within a few steps of a discontinuity or of the attitude singularity are not judged. " + EXPR, [dict(j, scale=6, sections="jacobian") for j in TERMS])
check("C26", "Random error terms of every kind and random histories of setters, moves, copies and assignments; distinct by kind and variable values.",
      REF, "Sampled operating points (both directions of motion, standing wheels, angles several turns away). A change written through a reference returned by a non-const getter is not judged. " + EXPR, [dict(j, scale=10, sections="residual") for j in TERMS])
check("C27", "Random and special places (poles, equator, date line, quadrant borders and their neighbourhoods, below sea level to orbit) and frame origins anywhere; distinct by latitude, longitude and altitude or origin.",
      REF, "Sampled places; points are judged by the defining equation of the ellipsoid to a millimetre, frames to 1e-9. The transformation class below is a stand-in for the missing sm_kinematics.",
      [dict(src=["c27_geo.cpp"], lib=None, scale=15, build="asan", shim=True, inc=[EX + "car/include"], repo=[EX + "car/src/geo/geodetic.cpp"])])
check("C28", "Random configurations (distinct values for every key, sensors in any order under any identifier, keys left out) and random values of every variable afterwards; distinct by configuration.",
      REF, "Sampled configurations. The configuration tree and the variable classes below are stand-ins for the missing sm_property_tree and aslam_backend; a configuration without a required key may be refused or keep the default.",
      [dict(TSVD, src=["c28_variables.cpp"], scale=3, build="asan", inc=TSVD["inc"] + [EX + d + "/include"], flags=["-D" + m], repo=TSVD["repo"] + [EX + d + "/src/" + f for f in fs])
       for d, m, fs in (("car", "EX_CAR", ("design-variables/OdometryDesignVariables.cpp", "algo/CarCalibratorOptions.cpp")),
                        ("time_delay", "EX_TD", ("design-variables/OdometryDesignVariables.cpp", "algo/CalibratorOptions.cpp", "simulation/SimulationParams.cpp", "simulation/TrajectoryParams.cpp")),
                        ("egomotion_sensors", "EX_EGO", ("design-variables/DesignVariables.cpp", "algo/CalibratorOptions.cpp", "simulation/SimulationParams.cpp", "simulation/TrajectoryParams.cpp")))])
check("C29", "Random measurement streams (regular, irregular, with gaps, on exact fractions of the window, delayed sensors, standing still, backwards), interleaved with predictions, clearing and flushing; a case counts when at least one batch was offered, distinct by operation sequence and window.",
      "runtime monitor: online checker of a model of the windows over the offered batches, under " + SAN, "Sampled histories of up to 260 operations and 5 offers. The spline library and the optimizer below are stand-ins; every offered batch is taken apart and compared term by term with an independent model, most offers are rejected by a scripted estimator.",
      [dict(TSVD, src=["c29_calibrator.cpp"], build="asan", inc=TSVD["inc"] + [EX + d + "/include"], flags=["-D" + m], repo=TSVD["repo"] + [EX + d + "/src/" + f for f in fs])
       for d, m, fs in (("car", "EX_CAR", ("design-variables/OdometryDesignVariables.cpp", "algo/CarCalibratorOptions.cpp", "algo/CarCalibrator.cpp", "algo/OptimizationProblemSpline.cpp", "algo/bestQuat.cpp", "error-terms/ErrorTermPose.cpp", "error-terms/ErrorTermSteering.cpp", "error-terms/ErrorTermVelocities.cpp", "error-terms/ErrorTermWheel.cpp")),
                        ("time_delay", "EX_TD", ("design-variables/OdometryDesignVariables.cpp", "algo/CalibratorOptions.cpp", "algo/Calibrator.cpp", "algo/OptimizationProblemSpline.cpp", "algo/bestQuat.cpp", "error-terms/ErrorTermPose.cpp", "error-terms/ErrorTermWheel.cpp")))]
      + [dict(TSVD, src=["c29_ego.cpp"], build="asan", inc=TSVD["inc"] + [EX + "egomotion_sensors/include"], repo=TSVD["repo"] + [EX + "egomotion_sensors/src/" + f for f in ("algo/Calibrator.cpp", "algo/CalibratorOptions.cpp", "algo/OptimizationProblemSpline.cpp", "algo/bestQuat.cpp", "design-variables/DesignVariables.cpp")])])
check("C30", "Random path, landmark and simulation parameters; distinct by parameters, by which pose first saw each landmark, and by simulated motion.",
      REF, "Sampled parameters; the simulator runs against a stand-in for the missing sm_kinematics/sm_timing libraries that keeps their conventions; the spline library below the egomotion simulator is a stand-in too (what is fitted and what is read is judged, not the fit).",
      [dict(src=["c30_lrf.cpp"], lib=None, scale=4, build="asan", repo=[EX + "2dlrf/src/2dlrf/utils.cpp"], inc=[EX + "2dlrf/include"]),
       dict(src=["c30_sim.cpp"], lib="base", scale=4, build="asan", shim=True, inc=[TD + "/include"],
            repo=[TD + "/src/simulation/" + f for f in ("simulationEngine.cpp", "SimulationData.cpp", "SimulationParams.cpp", "Trajectory.cpp", "TrajectoryParams.cpp")]),
       dict(src=["c30_ego.cpp"], lib="base", scale=4, build="asan", shim=True, inc=[EX + "egomotion_sensors/include"],
            repo=[EX + "egomotion_sensors/src/" + f for f in ("simulation/simulationEngine.cpp", "simulation/SimulationParams.cpp", "simulation/TrajectoryParams.cpp", "algo/bestQuat.cpp")])])
check("C31", "Pairs of unit quaternions (random, equal, opposite, orthogonal to within rounding, degenerate) and random sequences, for each of the three copies; distinct by pair.",
      REF, "Sampled pairs; orthogonal pairs within rounding may go either way.",
      [dict(src=["c31_bestquat.cpp"], lib=None, scale=10, build="asan", repo=[EX + d + "/src/algo/bestQuat.cpp"], inc=[EX + d + "/include"],
            flags=["-DHDR=\"aslam/calibration/%s/algo/bestQuat.h\"" % n])
       for d, n in (("car", "car"), ("egomotion_sensors", "egomotion"), ("time_delay", "time-delay"))])

EST = "The optimizer and the truncated SVD solver below the estimator are stand-ins (aslam_backend, truncated_svd_solver and SuiteSparse are not installed); the solver adapter of the repository is the real one."
check("C01", "Random histories of offers, forced offers, removals and reoptimizations with scripted solver outcomes (rank up/equal/down, gain below/at/above the threshold or not a number, cost up/equal/down, iterations below/at the limit), both constructors, all options; distinct by history of outcomes.",
      REF, "Sampled histories of up to 17 operations; every figure of a scripted solve is recognizable, so a figure taken from the wrong solve or the wrong quantity shows. " + EST,
      [dict(TSVD, src=["c01_estimator.cpp"], build="asan", flags=["-DPART=1"])])
check("C02", "Random histories of offers, forced offers, removals and reoptimizations in which offers are rejected for every reason, batches sharing variables, bringing new groups; distinct by history of outcomes.",
      REF, "Sampled histories of up to 17 operations; the whole structure, every figure and every value are compared bit for bit around each rejection, and linear problems are solved for real by twins that do and do not get the rejected offers. " + EST,
      [dict(TSVD, src=["c01_estimator.cpp", "c07_linear.cpp"], build="asan", flags=["-DPART=2"])])
check("C03", "Random batch contents (groups in any order, inactive variables, the marginalized group anywhere, absent, or absent after a removal); every solve is observed from inside the optimizer; distinct by history of outcomes.",
      "runtime monitor: assertions on the state seen by every solve, under " + SAN, "Sampled histories of up to 17 operations. " + EST,
      [dict(TSVD, src=["c01_estimator.cpp"], build="asan", flags=["-DPART=3"])])
check("C04", "Random histories of adding, removing (by index, batch, iterator), permuting, reordering and clearing over batches that share variables, with unacceptable batches and arguments in between, and destruction of what is not held; distinct by history.",
      REF, "Sampled histories of up to 40 operations over at most 10 shared variables; batches are not changed while held. The optimizer base classes are a stand-in for the missing aslam_backend.",
      [dict(TSVD, src=["c04_incremental.cpp"], build="asan", flags=["-DPART=4"])])
check("C05", "Random histories of adding variables and terms, permuting, reordering groups, clearing, with unacceptable arguments in between; distinct by history.",
      REF, "Sampled histories of up to 40 operations over at most 10 variables and 8 terms; the optimizer base classes are a stand-in for the missing aslam_backend.",
      [dict(TSVD, src=["c05_problem.cpp"], build="asan", flags=["-DPART=5"])])
check("C06", "Random histories of updates, reverts, direct writes, saves, restores, additions, removals, clearings and destructions on both kinds of problem; distinct by history.",
      REF, "Sampled histories of up to 50 operations; a variable removed and added again between a save and a restore is not judged.",
      [dict(TSVD, src=["c05_problem.cpp", "c04_incremental.cpp"], scale=5, build="asan", flags=["-DPART=6"])])
check("C07", "Random linear problems (one to three calibration vectors with unobservable directions, nuisance and local variables, inactive variables, random weights), offered, forced, removed, offered again and reoptimized in random order; distinct by problem and history.",
      REF, "Sampled histories of up to 15 operations; every state is compared with a direct extended-precision solution of all measurements held. States whose rank is not clear cut (eigenvalues between 1e-16 and 1e-6 of the largest) are not judged. " + EST,
      [dict(TSVD, src=["c07_linear.cpp"], build="asan", flags=["-DPART=7"])])
check("C32", "Random noise-free problems (motion, calibration, landmarks or sensors, weights, batching, thresholds), solved batch by batch from a wrong first guess; a case counts when the calibration was fully observed.",
      "runtime monitor: the estimated calibration compared with the one the data was generated with", "Sampled problems starting within a few centimetres and degrees of the truth; those whose motion does not determine the calibration are not judged. " + EST,
      [dict(TSVD, src=["c32_lrf.cpp"], build="plain", flags=["-O2"], inc=TSVD["inc"] + [EX + "2dlrf/include"], repo=TSVD["repo"] + [EX + "2dlrf/src/2dlrf/" + f for f in ("ErrorTermMotion.cpp", "ErrorTermObservation.cpp", "utils.cpp")]),
       dict(TSVD, src=["c32_windows.cpp"], build="plain", flags=["-O2", "-DEX_TD"], inc=TSVD["inc"] + [TD + "/include"], repo=TSVD["repo"] + [TD + "/src/" + f for f in ("design-variables/OdometryDesignVariables.cpp", "algo/CalibratorOptions.cpp", "algo/Calibrator.cpp", "algo/OptimizationProblemSpline.cpp", "algo/bestQuat.cpp", "error-terms/ErrorTermPose.cpp", "error-terms/ErrorTermWheel.cpp")]),
       dict(TSVD, src=["c32_windows.cpp"], build="plain", flags=["-O2", "-DEX_EGO"], inc=TSVD["inc"] + [EX + "egomotion_sensors/include"], repo=TSVD["repo"] + [EX + "egomotion_sensors/src/" + f for f in ("algo/Calibrator.cpp", "algo/CalibratorOptions.cpp", "algo/OptimizationProblemSpline.cpp", "algo/bestQuat.cpp", "design-variables/DesignVariables.cpp")])])
check("C35", "Random fitted trajectories, kept, rejected and removed batches of them, random simulated data, written to scratch files and read back; distinct by trajectory length and step, by history of batches, and by data.",
      REF, "Sampled trajectories of up to 20 s, steps of whole nanoseconds; the files are read back as text at full precision. " + EST,
      [dict(TSVD, src=["c35_output.cpp"], build="asan", scale=2, flags=["-D" + m], inc=TSVD["inc"] + [EX + d + "/include"], repo=TSVD["repo"] + [EX + d + "/src/" + f for f in ("algo/splinesToFile.cpp", "algo/OptimizationProblemSpline.cpp") + x])
       for d, m, x in (("car", "EX_CAR", ()), ("time_delay", "EX_TD", ("simulation/SimulationData.cpp", "simulation/Trajectory.cpp")), ("egomotion_sensors", "EX_EGO", ()))])
check("C36", "Random histories of new structures, builds, solves, analyses, failures below, changed options and moved start columns on one adapter; a case counts when something was solved, distinct by history.",
      REF, "Sampled histories of up to 16 operations on systems of up to 20 variables. CHOLMOD, the Jacobian builder and the truncated SVD solver are stand-ins; what the adapter hands them and returns from them is judged.",
      [dict(TSVD, src=["c36_adapter.cpp"], build="asan", scale=3)])
check("C37", "Random programs over every exported class and function, run through an embedded Python interpreter, with the same object read from C++ after every call; distinct by sequence of calls.",
      REF, "Sampled programs of up to 15 calls. The Python classes of the libraries below (aslam_backend, sm, numpy_eigen) are stand-ins; matrices pass by value as lists. " + EST,
      [dict(TSVD, src=["c37_python.cpp"], build="asan", scale=12, flags=["-isystem/usr/include/python3.12"], link=["-lboost_python312", "-lpython3.12"], repo=TSVD["repo"] + ["incremental_calibration_python/src/" + f for f in ("IncrementalEstimator.cpp", "LinearSolver.cpp", "OptimizationProblem.cpp", "module.cpp")])])
PROG = dict(TSVD, build="asan")
LRF = dict(PROG, src=["c38_lrf.cpp", "prog.cpp"], inc=TSVD["inc"] + [EX + "2dlrf/include", EX + "2dlrf/src/2dlrf"], repo=TSVD["repo"] + [EX + "2dlrf/src/2dlrf/" + f for f in ("ErrorTermMotion.cpp", "ErrorTermObservation.cpp", "utils.cpp")])
check("C38", "Runs of the four simulation programs in scratch directories under random configurations (path shape, sampling, noise, landmarks, batch size, window, threshold) and the shipped ones; the files and text they leave are read back; distinct by configuration.",
      REF, "Sampled configurations of up to a few hundred samples. The programs' main functions are compiled into the harness and called; their random draws are the library's. " + EST,
      [dict(LRF, flags=["-O1", "-DPROGRAM=\"simulate-offline.cpp\""]),
       dict(LRF, flags=["-O1", "-DONLINE", "-DPROGRAM=\"simulate-online-new.cpp\""]),
       dict(PROG, src=["c38_sim.cpp", "prog.cpp"], flags=["-O1", "-DEX_TD", "-DPROGRAM=\"simulator.cpp\""], inc=TSVD["inc"] + [TD + "/include", TD + "/src/simulation"], repo=TSVD["repo"] + [TD + "/src/" + f for f in ("design-variables/OdometryDesignVariables.cpp", "algo/CalibratorOptions.cpp", "algo/Calibrator.cpp", "algo/OptimizationProblemSpline.cpp", "algo/bestQuat.cpp", "algo/splinesToFile.cpp", "error-terms/ErrorTermPose.cpp", "error-terms/ErrorTermWheel.cpp", "simulation/simulationEngine.cpp", "simulation/SimulationData.cpp", "simulation/SimulationParams.cpp", "simulation/Trajectory.cpp", "simulation/TrajectoryParams.cpp")]),
       dict(PROG, src=["c38_sim.cpp", "prog.cpp"], flags=["-O1", "-DEX_EGO", "-DPROGRAM=\"simulator.cpp\""], inc=TSVD["inc"] + [EX + "egomotion_sensors/include", EX + "egomotion_sensors/src/simulation"], repo=TSVD["repo"] + [EX + "egomotion_sensors/src/" + f for f in ("algo/Calibrator.cpp", "algo/CalibratorOptions.cpp", "algo/OptimizationProblemSpline.cpp", "algo/bestQuat.cpp", "algo/splinesToFile.cpp", "design-variables/DesignVariables.cpp", "simulation/simulationEngine.cpp", "simulation/SimulationParams.cpp", "simulation/TrajectoryParams.cpp")])])
CARP = dict(PROG, src=["c39_car.cpp", "prog.cpp"], inc=TSVD["inc"] + [EX + "car/include", EX + "car/src/realworld"], repo=TSVD["repo"] + [EX + "car/src/" + f for f in ("geo/geodetic.cpp", "design-variables/OdometryDesignVariables.cpp", "algo/CarCalibratorOptions.cpp", "algo/CarCalibrator.cpp", "algo/OptimizationProblemSpline.cpp", "algo/bestQuat.cpp", "algo/splinesToFile.cpp", "error-terms/ErrorTermPose.cpp", "error-terms/ErrorTermSteering.cpp", "error-terms/ErrorTermVelocities.cpp", "error-terms/ErrorTermWheel.cpp")])
check("C39", "Random planar drives of a car of known geometry, turned into the messages its sensors would have sent (geodetic positions, attitudes, encoder, wheel and steering messages), given to the two programs as the content of a bag; distinct by drive.",
      REF, "Sampled drives of up to 5 s. Bags are held in memory by a stand-in of rosbag, message types are stand-ins with the fields used; the library run beside the program on the measurements expected is the repository's own (judged by C29). " + EST,
      [dict(CARP, flags=["-O1", "-DPROGRAM=\"calibrator.cpp\""]), dict(CARP, flags=["-O1", "-DANALYZER", "-DPROGRAM=\"analyzer.cpp\""])])
check("C22", "Random call sequences over every public class with hostile values (extreme, not finite, subnormal, limits of the integer types, empty and mismatched lists), including calls after refused ones, on copied, assigned and reset objects; distinct by the values met.",
      "sanitizers: clang address and undefined-behaviour sanitizers on every call, valgrind memcheck for uninitialized memory", "Sampled call sequences; calls whose cost grows with a shape, mean or cell count are kept below 2,000 (shape, mean) and 100,000 cells; objects of run-time size are given matching sizes. Results are branched on, so that undefined ones are seen by valgrind.",
      [dict(src=["c22_a.cpp", "c22_b.cpp"], lib="base", build="asanfull"),
       dict(src=["c22_a.cpp", "c22_b.cpp"], lib="base", build="valgrind", scale=0.04)] +
      [dict(TSVD, src=["c01_estimator.cpp", "c04_incremental.cpp", "c05_problem.cpp", "c24_vector.cpp"], build=b, scale=sc,
            flags=["-DPART=2", "-DMON_NO_ORACLE"]) for b, sc in (("asanfull", 0.5), ("valgrind", 0.02))])
TSAN = dict(build="tsan", scale=0.25)
check("C23", "Threads that each run random histories on their own objects, over every class (the workloads of the other properties, with their oracles), and threads that only read shared objects; random delays between operations. Distinct by interleaving of eight successive operations.",
      "race detector (clang thread sanitizer) with the reference models of the other properties judging every thread's results; conservation of the shared random draws", "Sampled schedules of four threads; code of the C library below the library is seen only through its interceptors. The time-zone environment is not changed while threads run.",
      [dict(TSAN, lib="base", flags=["-DMON_THREADS=4"], src=["c08_permute.cpp", "c09_matrix.cpp", "c10_grid_a.cpp", "c10_grid_c.cpp", "c11_a.cpp", "c11_b.cpp", "c12_transformation.cpp", "c13_a.cpp", "c13_b.cpp",
            "c14_moments.cpp", "c15_params.cpp", "c18_estimators.cpp", "c19_functions.cpp", "c21_exceptions.cpp", "c22_a.cpp", "c22_b.cpp"]),
       dict(TSVD, **TSAN, src=["c04_incremental.cpp", "c05_problem.cpp", "c24_vector.cpp", "c01_estimator.cpp"], flags=["-DMON_THREADS=4", "-DPART=2"]),
       dict(TSVD, **TSAN, src=["c07_linear.cpp"], flags=["-DMON_THREADS=4", "-DPART=7"]),
       dict(TSAN, lib="base", src=["c23_shared.cpp"])])
check("C24", "Random histories of updates, reverts, writes, copies and assignments over three variables of 1, 2, 3, 7 or a run-time number of components, infinite and not-a-number values included; distinct by history.",
      REF, "Sampled histories of up to 23 operations, compared bit for bit with a value/previous-value model.",
      [dict(src=["c24_vector.cpp"], lib="base", scale=8, build="asan", shim=True)])

CAM = dict(TSVD, build="asan", inc=TSVD["inc"] + [EX + "camera/include"])
VISION = "The vision library below (cameras, board, detector, OpenCV) is a stand-in: a camera projects by the usual pinhole or unified omnidirectional model, an image carries the scene it shows."
check("C33", "Random histories of initializations, images with and without a board, flushes, with scripted acceptance of batches, over both camera types, boards, batch sizes and both constructors; and noise-free image sets solved for real. Distinct by history.",
      REF, "Sampled histories of up to 30 operations. " + VISION + " " + EST,
      [dict(CAM, src=["c33_camera.cpp"], scale=5, sections="calibrator", repo=TSVD["repo"] + [EX + "camera/src/camera/CameraCalibrator.cpp"]),
       dict(CAM, src=["c33_camera.cpp"], scale=5, sections="recovery", build="plain", flags=["-O2"], repo=TSVD["repo"] + [EX + "camera/src/camera/CameraCalibrator.cpp"])])
check("C34", "Random image sequences of a board (corners hidden, out of view, behind the camera), cameras that differ from the one the images were taken with, both camera types; distinct by sequence.",
      REF, "Sampled sequences of up to 10 images. " + VISION,
      [dict(CAM, src=["c34_validator.cpp"], scale=20, repo=TSVD["repo"] + [EX + "camera/src/camera/CameraValidator.cpp"])])
CAMP = dict(CAM, src=["c40_camera.cpp", "prog.cpp"], link=["-lboost_filesystem"], inc=CAM["inc"] + [EX + "camera/src/camera"], repo=TSVD["repo"] + [EX + "camera/src/camera/" + f for f in ("CameraCalibrator.cpp", "CameraValidator.cpp")])
check("C40", "Bags of images of a board (some without one, some unfit to initialize the camera, some of another topic) taken by random cameras of both types, given to the two programs under random configurations and the shipped one; distinct by images.",
      REF, "Sampled bags of up to 12 images. Images, the search for the board, windows and picture files are stand-ins that carry and record what passes through them; the library run beside the calibration program is the repository's own (judged by C33). " + EST,
      [dict(CAMP, scale=6, flags=["-O1", "-DCALIBRATE", "-DPROGRAM=\"calibrateCamera.cpp\""]), dict(CAMP, scale=10, flags=["-O1", "-DPROGRAM=\"validateCamera.cpp\""])])
def again(job, **kw):
    return dict(job, build="plain", src=job["src"] + ["c41_heap.cpp"], flags=["-DREPEAT"] + job["flags"], **kw)
C38J, C39J, C40J = (CHECKS[p]["jobs"] for p in ("C38", "C39", "C40"))
check("C41", "Histories of the estimator, draws after a seed, and runs of the simulation, car and camera programs, each made twice: same inputs and same seed, on storage handed out in another random order and filled with other bytes, in another folder. Distinct by what the run leaves.",
      "runtime monitor: two executions of the real code under injected storage order and content, compared bit for bit (figures, estimates, decisions, files, printed text)", "Sampled histories and configurations. Address-dependent order shows with the probability that two random storage orders differ on the objects concerned. " + EST,
      [dict(TSVD, build="plain", src=["c41_core.cpp", "c41_heap.cpp"], flags=["-O2"])] + [again(j) for j in C38J + C39J[:1] + C40J])
check("C42", "Random objects of every class that prints itself, built, changed by their setters, assigned and copied, printed in random formats (precision, scientific, fixed, signs, words for truth values) through their own type and their base; distinct by text.",
      REF, "Sampled objects and formats; figures are compared as the stream's own format shows them, spacing and line breaks are not judged. Reading from a stream, and writing to a file for the classes that leave it empty, are not judged.",
      [dict(src=["c42_printed.cpp"], lib="base", scale=8, build="asan")])
