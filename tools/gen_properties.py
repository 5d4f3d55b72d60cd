#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One entry per property; edit here, re-run, commit both."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

MX, VX, LA, CO = "linalg/src/matrix.rs", "linalg/src/vector.rs", "linalg/src/linalg.rs", "linalg/src/common.rs"
QT, UT, CX, FF = "quaternion/src/quaternion.rs", "utils/src/lib.rs", "dsp/src/complex.rs", "dsp/src/fft.rs"
AC, GY, MA = "open_ahrs/src/accelerometer.rs", "open_ahrs/src/gyrometer.rs", "open_ahrs/src/magnetometer.rs"
AR, AQ, DV, OC = "open_ahrs/src/ar.rs", "open_ahrs/src/aqua.rs", "open_ahrs/src/davenport.rs", "open_ahrs/src/common.rs"

p("C01", "A matrix behaves as an m x n table over every history of operations",
  "After any sequence of creating, sizing, writing, row/column replacing, row/column inserting, row deleting, filling, identity filling, copying, duplicating, transposing and extracting (row, column, diagonal), a matrix holds exactly the table that the same sequence gives on an ordinary two-dimensional array of the stated size; a new matrix is all zeros. Every extracted row, column, diagonal, deleted row or duplicate holds exactly the corresponding elements, and operations on one matrix never change another.",
  ["histories", "inputs"], "every sequence of public structural operations on several matrices of every size from 1x1 to the capacity, with every index and every finite value",
  "The tests perform single init/get/set calls on 4x4 matrices and only print the results of row insertion, deletion and diagonals; no history and no rectangular layout is ever compared with an expected table.",
  [MX, VX], [("row-major indexing by the current column count", MX + " get_element/set_element"), ("re-layout when the column count changes", MX + " set_cols, transpose"), ("shifting loops", MX + " add_row, add_col, del_row")],
  ["get_rows/get_cols/get_element of every live matrix after every step", "returned vectors"],
  [("rows, cols, elements", "current shape and row-major storage", MX)])
p("C02", "A vector behaves as a fixed-length list over every history of operations",
  "After any sequence of creating, sizing, writing, filling, copying, duplicating and conversion to a one-column matrix, a vector holds exactly the list that the same sequence gives on an ordinary array of the stated length; a new vector is all zeros. The same holds for vectors of small integers used as permutations, and operations on one vector never change another.",
  ["histories", "inputs"], "every sequence of public storage operations on several vectors of every length from 1 to the capacity, with every index and finite value",
  "No unit test reads back a vector of length other than 4, and none runs more than one or two operations on it.",
  [VX], [("bounds and validity checks before storing", VX + " set_element/get_element"), ("size checks before copying", VX + " copy_from/duplicate")],
  ["get_rows/get_element of every live vector after every step"])
p("C03", "Invalid calls are refused with an error and change nothing",
  "Every call that is given an uninitialised object, an unsupported size, a row or column that does not exist, operands of incompatible sizes or a non-finite number to store or compute with returns an error, never a success and never a panic. After such a refusal every object involved has the same initialisation status, size and elements as before, and remains usable. Calls whose arguments are all acceptable are not refused.",
  ["inputs", "histories", "fault_sequences"], "every public storage and arithmetic operation of matrices, vectors and quaternions, with every combination of uninitialised/initialised operands, sizes, indices in the whole integer range, and finite or non-finite numbers",
  "Tests check a handful of single bad arguments (about a dozen calls) and never look at the object after the refusal; the space of operand/size/index combinations is not enumerated.",
  [MX, VX, QT, CO], [("initialisation flag checks", MX + ", " + VX), ("size and index validators", CO + " is_valid_*"), ("value validator", UT + " is_valid_value")],
  ["returned Result", "state of all operands before and after the call"])
p("C04", "No operation ever stores or returns NaN or infinity as a success",
  "Starting from any finite contents (including values near the largest and smallest representable magnitudes), every matrix, vector and quaternion operation either reports an error or leaves only finite numbers in every object and returns only finite numbers. In particular an elementary computation (sum, difference, multiple, power, product, trace, norm) whose exact result overflows or is undefined is reported as an error, and one whose partial results all stay representable succeeds.",
  ["inputs", "histories"], "all sequences of arithmetic operations over arbitrary finite bit patterns",
  "Tests use small literals; overflow, subnormal and extreme magnitudes are never produced.",
  [MX, VX, QT, UT], [("every stored value goes through the validator", MX + "/" + VX + " set_element"), ("validator", UT + " is_valid_value")],
  ["every element of every object after each call", "every returned number"])
p("C05", "Matrix arithmetic equals exact arithmetic up to rounding, in every call form",
  "Sum, difference, scalar shift, scalar multiple, element power, product, transpose, trace and Frobenius norm of matrices of every compatible shape equal the mathematical result up to single-precision rounding. The variants that write into a destination, work in place, or return a new matrix give the same result, and operands that are not the destination are left unchanged.",
  ["inputs"], "all matrix shapes up to the capacity (including rectangular products) and all moderate finite elements",
  "Arithmetic on matrices is not tested at all apart from two hard-coded additions.",
  [MX], [("element loops", MX + " add*/sub*/mul*/transpose*/power_elements/trace/calculate_frobenius_norm")],
  ["elements of destinations and operands", "returned scalars"])
p("C06", "Vector arithmetic equals exact arithmetic up to rounding, in every call form",
  "Sum, difference, scalar shift, scalar multiple, element power, dot product, outer product and Euclidean norm of vectors equal the mathematical result up to single-precision rounding (norms at or below the library tolerance read as zero), and all call forms agree and leave their operands unchanged. Normalising gives a vector of length one in the same direction, or the zero vector when the input is within the tolerance of zero.",
  ["inputs"], "all vector lengths up to the capacity and all moderate finite elements, including very short vectors",
  "Vector arithmetic has no test.",
  [VX], [("element loops", VX + " add*/sub*/mul_by_scalar*/dot_product/outer_product/calculate_norm/normalize")],
  ["elements of destinations and operands", "returned scalars"])
p("C07", "Determinants are correct, including sign, by either method",
  "For every square matrix up to the capacity, the determinant obtained by factorisation and the one obtained by permutation expansion both equal the exact determinant up to rounding, including its sign under any row order. A nonsingular matrix is never reported singular when its elimination pivots are clearly above the tolerance; for a singular one the factorisation method either reports singularity or returns a value that is zero within tolerance, and a non-square matrix is refused.",
  ["inputs"], "all square sizes 1..4, permuted/scaled/dense/sparse/integer matrices of either sign, singular and nonsingular",
  "The two tests print the determinant of one fixed matrix each and assert nothing.",
  [MX, LA], [("pivoted elimination", LA + " lup"), ("sign from the permutation", MX + " det"), ("permutation expansion", MX + " det_naive, generate_permutations, count_inversions")],
  ["returned determinant or error"])
p("C08", "Inverses and linear solutions satisfy their equations; singular input is refused",
  "For every well-conditioned square matrix, inverting it yields a matrix whose product with the original is the identity up to conditioning-scaled rounding, and solving with its factorisation yields x with A x = b up to the same accuracy, whatever the row order, scale or signs. An exactly singular matrix is refused by both and left unchanged; for orthogonal matrices the adjugate, when it is given, equals the transpose times the determinant, and it is always given for rotations.",
  ["inputs"], "all square sizes 1..4 whose pivots stay above 1.1 times the tolerance, all row permutations, right-hand sides of any sign, and singular matrices",
  "Inversion and solving are never tested.",
  [MX, LA], [("pivoted factorisation and substitution", LA + " lup, solve"), ("column-by-column inversion", MX + " invert"), ("adjugate", MX + " adjugate_in_place")],
  ["A*inv(A), inv(A)*A, residual A x - b", "errors"])
p("C09", "Triangular factorisations multiply back to the original matrix",
  "When either unpivoted factorisation of a square matrix succeeds, it returns a unit lower-triangular and an upper-triangular matrix whose product is the original matrix up to rounding relative to the factors, and the original is unchanged. Both succeed on every square matrix whose leading minors are clearly nonzero, and refuse non-square input.",
  ["inputs"], "all square sizes 1..4, diagonally dominant, dense and integer matrices, plus matrices with vanishing leading minors",
  "One test unwraps one factorisation of one fixed 3x3 matrix and ignores the factors.",
  [MX], [("Doolittle recurrences", MX + " lr"), ("Crout recurrences", MX + " lu_crout")],
  ["product of the returned factors", "zero pattern of the factors"])
p("C10", "Cholesky succeeds exactly on positive-definite matrices and L L^T = A",
  "For every symmetric matrix that is clearly positive definite the definiteness test says so and the Cholesky factor is lower triangular with positive diagonal and multiplies with its transpose back to the matrix up to rounding. For every symmetric matrix that is clearly indefinite or negative, or has a zero row, the test never says positive definite and no factor is returned; an asymmetric or non-square matrix is refused.",
  ["inputs"], "symmetric matrices of sizes 1..4 with prescribed spectra and bounded conditioning, barely definite ones with pivots down to the tolerance, indefinite and negative ones, ones with a zero row, and asymmetric ones",
  "One test unwraps the factor of one fixed matrix and ignores it.",
  [MX], [("leading-minor test", MX + " is_positive_definite"), ("column-wise Cholesky", MX + " chol")],
  ["factor and its zero pattern", "boolean/err result"])
p("C11", "QR decomposition: Q R = A, Q orthonormal, R upper triangular",
  "For every matrix with at least as many rows as columns the decomposition succeeds with Q R equal to the matrix, R upper triangular and the columns of Q orthonormal, up to conditioning-scaled rounding and the library tolerance. This includes square, tall and rank-deficient matrices and leaves the input unchanged.",
  ["inputs"], "all shapes m>=n up to 4x4, conditioned, integer and rank-deficient matrices",
  "QR decomposition is never tested.",
  [MX], [("modified Gram-Schmidt", MX + " qr_decomp")],
  ["Q^T Q, Q R, lower part of R"])
p("C12", "Eigen decomposition returns true eigenpairs or reports failure",
  "For every symmetric matrix, whenever either iteration mode reports success each returned value/column pair satisfies A v = lambda v with orthonormal columns, within the accuracy of the stopping tolerance; when the budget is too small to converge an error is reported instead. With an ample budget the plain iteration succeeds on every symmetric matrix whose eigenvalues have clearly distinct magnitudes, and the shifted one on every clearly non-degenerate 2x2.",
  ["inputs", "configurations"], "symmetric matrices of sizes 1..4 with prescribed spectra (either sign, zero and opposite eigenvalues included, up to 1e7) under random rotations, both iteration modes, iteration budgets from 0 to 1000",
  "The eigen solver has no test.",
  [LA], [("QR iteration with relative-variation stop", LA + " eigen"), ("Wilkinson shift", LA + " eigen")],
  ["returned eigenvalues and eigenvectors", "error on exhaustion"])
p("C13", "Matrix predicates agree with their definitions",
  "Square, same-size, equal-within-deviation, upper/lower triangular, symmetric, orthogonal and special-orthogonal answers agree with the mathematical definition for every matrix that is not within rounding of the stated tolerance, in both directions; the answer does not depend on which element violates it. A matrix on which a square-only predicate makes no sense is answered false or refused, never true.",
  ["inputs"], "matrices of every shape built to satisfy the predicate, and the same matrix with any one element perturbed by more or less than the tolerance; equality of matrices and vectors at every magnitude from 1e-6 to 1e30",
  "Only squareness and same-size are tested, on one or two fixed shapes.",
  [MX, VX], [("tolerance comparison", UT + " allclose"), ("element loops", MX + " is_*")],
  ["boolean results"])
p("C14", "The logarithm of a rotation matrix is its rotation vector",
  "For every rotation matrix, including the identity, very small rotations and half turns (where either sense of the axis will do), the matrix logarithm is the skew-symmetric matrix of axis times angle up to rounding, and exponentiating it gives the rotation back. The in-place and returning forms agree, and the inverse rotation has the opposite logarithm.",
  ["inputs"], "all axes and angles from 0 up to and including pi",
  "The logarithm is never tested.",
  [MX], [("Rodrigues logarithm", MX + " log, log_in_place")],
  ["elements of the result"])
p("C15", "Interpolation is exact at the ends and proportional in between",
  "Linear interpolation by a fraction t in [0,1] gives (1-t) a + t b. Spherical interpolation between unit vectors (including identical ones) gives the unit vector on the arc between them at t times their angle, returning the end points at t = 0 and t = 1. A fraction outside [0,1] or not a number is refused and the destination is unchanged.",
  ["inputs"], "all lengths 1..4, all fractions, all unit vector pairs not within a margin of opposite, including identical and nearly identical pairs",
  "Interpolation is never tested directly.",
  [VX], [("range check", UT + " in_range"), ("formulas", VX + " lerp, slerp")],
  ["destination elements"])
p("C16", "Quaternion product, conjugate and inverse obey the quaternion algebra",
  "The product of two quaternions is the Hamilton product up to rounding: it is associative, has the identity as neutral element, multiplies norms, and reverses under conjugation. The inverse of a nonzero quaternion times the quaternion is the identity, the inverse of one within tolerance of zero is zero, and in-place, destination and returning forms agree, leaving other operands unchanged.",
  ["inputs"], "all quaternions with components of moderate magnitude, including axis units, pure, real and tiny ones",
  "One test multiplies one pair of quaternions.",
  [QT], [("component formulas", QT + " mul, mul_new, conjugate, invert")],
  ["components of results and operands"])
p("C17", "The quaternion exponential is the exponential",
  "For every quaternion w + v the exponential equals e^w (cos|v| + (v/|v|) sin|v|) up to rounding and the library tolerance, so a real quaternion gives the real exponential and a pure one a unit quaternion. The in-place and returning forms agree, and the exponentials of q and -q multiply to the identity.",
  ["inputs"], "real parts in [-80,80], vector parts of length 0..3000 including multiples of pi/2, and near-real and near-pure quaternions",
  "The exponential has no test.",
  [QT], [("polar form", QT + " exp, exp_new")],
  ["components of the result"])
p("C18", "A unit quaternion converts to the rotation it stands for",
  "The matrix of a unit quaternion is a proper rotation and equals the map v -> q v q*, opposite quaternions give the same matrix and products of quaternions give products of matrices. Rotating a 3-vector by a quaternion applies that matrix in both call forms, so lengths and angles are preserved and the conjugate undoes the rotation.",
  ["inputs"], "all unit quaternions (including half turns, identity, axis rotations) and all 3-vectors of moderate size",
  "Conversion and rotation are never tested.",
  [QT], [("matrix formula", QT + " convert_to_dcm"), ("rotation through the matrix", QT + " rotate, rotate_in_place")],
  ["matrix elements", "rotated vectors"])
p("C19", "Every matrix-to-quaternion method inverts the quaternion-to-matrix conversion",
  "For each of the three conversion methods, converting the rotation matrix of a unit quaternion back gives that quaternion up to overall sign, within an accuracy that depends on how close the rotation is to a half turn; exact half turns about any axis and the identity are included. The result is a unit quaternion with non-negative real part and the three methods agree.",
  ["inputs"], "all unit quaternions, exact and near half turns about any axis, identity and small rotations, and any branch threshold of the method that takes one",
  "None of the three methods is tested.",
  [QT], [("Hughes", QT + " hughes"), ("Chiaverini", QT + " chiaverini"), ("Sarabandi", QT + " sarabandi")],
  ["components of the result compared with +-q"])
p("C20", "Euler angles describe the same rotation and are always finite",
  "For every unit quaternion the roll, pitch and yaw angles are finite with roll and yaw in [-pi, pi] and pitch in [-pi/2, pi/2], and composing yaw, pitch and roll rotations gives the quaternion's rotation, including at vertical pitch, where only the sum or difference of roll and yaw is determined and the pitch angle is plus or minus a quarter turn. Away from vertical pitch opposite quaternions give the same angles up to full turns.",
  ["inputs"], "all unit quaternions, including gimbal-lock ones with rounding of either sign",
  "The one test that calls the conversion prints the angles.",
  [QT], [("atan2/asin formulas", QT + " convert_to_euler")],
  ["returned angles"])
p("C21", "Quaternion components and classifications are consistent",
  "Component setters and getters, the four-component fill, the identity fill and the vector part address the same four slots (w, x, y, z) in any order of use. Real, pure, unit and identity answers agree with the definition for every quaternion not within rounding of the tolerance, and every quaternion operation on a vector of another length, every rotation of a vector that does not have three components and every conversion of a matrix too small to be a rotation is refused without changing anything.",
  ["inputs", "histories"], "all sequences of component writes and reads; quaternions built to satisfy a class or to miss it in any one component by more or less than the tolerance; vectors of length 1..4",
  "One test fills one quaternion and reads it back.",
  [QT], [("slot mapping", QT + " set_q*/get_q*/fillq/get_vector_part"), ("tolerance comparison", QT + " is_real/is_pure/is_versor/is_identity")],
  ["components and booleans"])
p("C22", "Corrected sensor readings are calibration matrix times (raw minus bias)",
  "For each of the three sensors and any configuration, the corrected reading after an update equals the configured 3x3 correction (scale factors on the diagonal, the factor named ab couples axis a into axis b) applied to the raw reading minus the bias, up to rounding; the default configuration is transparent. The configuration read back is the one last accepted, and a new configuration applies from the next update on, independently of earlier readings.",
  ["inputs", "configurations", "histories"], "all finite moderate configurations (12 parameters) and readings of the three sensors, over sequences of reconfigurations and updates",
  "Sensors are only exercised with the default configuration, and the result is only printed.",
  [AC, GY, MA], [("field to matrix mapping", AC + "/" + GY + "/" + MA + " private_set_config/get_config"), ("correction", AC + "/" + GY + "/" + MA + " correct")],
  ["corrected readings", "configuration read back"])
p("C23", "Sensors follow a strict life cycle and survive bad data",
  "Over every history of calls, a sensor refuses configuration changes, updates and readings until it has been initialised once, and refuses a second initialisation; before its first update it reads zero. A refused initialisation, reconfiguration or update (for example one with a non-finite number) leaves status, configuration and last corrected reading exactly as they were, so the next valid call behaves as if the bad one had never happened.",
  ["histories", "fault_sequences"], "all interleavings of init, set_config, get_config, update and read with valid and invalid (NaN, infinite in any field) arguments on the three sensors",
  "No test ever passes an invalid argument to a sensor or calls it out of order.",
  [AC, GY, MA], [("initialisation flag", AC + "/" + GY + "/" + MA), ("value validation", MX + "/" + VX + " set_element")],
  ["results and readings after each call compared with a model that ignores refused calls"],
  [("initialized", "set by the first accepted init", AC)])
p("C24", "The angular-rate filter integrates body rates exactly (closed form)",
  "With the closed-form method, the attitude after any sequence of updates equals the initial attitude composed on the right with the finite rotations given by each corrected rate times the sampling period, up to accumulated rounding; rates within tolerance of zero leave it unchanged. Splitting a constant-rate interval into several updates, or undoing it with the opposite rate, gives the same attitude.",
  ["histories", "inputs", "configurations"], "all unit initial attitudes, calibrations, sampling periods from 1e-5 to 10 s and rate sequences up to hundreds of updates, rates up to 5000 rad/s",
  "The single filter test prints three attitudes of the Euler method and checks nothing.",
  [AR, GY, OC], [("rotation update", AR + " update"), ("rate matrix", OC + " calculate_omega_matrix")],
  ["attitude after each update against an independent double-precision integrator"])
p("C25", "All integration methods approximate the same motion to their order",
  "For the same rates the Taylor method of order n differs from the exact rotation by no more than the truncation error of order n, for every order accepted, and the Euler method by no more than the first-order error; both integrate the same body-rate motion as the closed form. A method that is not available is reported as an error as soon as it is needed and never changes the attitude.",
  ["inputs", "configurations"], "all orders 0..255, half-angles per step up to 2 rad, all axes and initial attitudes, all five method selectors",
  "Only the Euler method is run, and its result is only printed.",
  [AR, OC, UT], [("series summation", AR + " update"), ("Euler step", AR + " update"), ("method dispatch", AR + " update")],
  ["one-step attitude against the exact rotation with an analytic error bound"])
p("C26", "The estimated attitude is always a finite unit quaternion",
  "Starting from a unit attitude, after every update of either filter in any mode and with any measurements, finite or not, the reported attitude is a finite quaternion of length one up to rounding. An update that reports an error leaves the attitude exactly as it was before that update.",
  ["histories", "inputs", "fault_sequences"], "all sequences of up to hundreds of updates mixing ordinary, huge, tiny, zero, degenerate and non-finite measurements, in every mode, method and gain setting",
  "The test prints attitudes of three benign updates; no invariant and no bad input is ever checked.",
  [AR, AQ, VX], [("renormalisation after each update", AR + "/" + AQ + " update"), ("error propagation before the attitude is stored", AR + "/" + AQ + " update")],
  ["attitude after each update"])
p("C27", "Filters follow a strict life cycle and a failed initialisation is harmless",
  "Over every history, a filter refuses updates and attitude requests until an initialisation has been accepted, then refuses further initialisations without changing anything. An initialisation refused because of a missing or non-finite argument leaves the filter able to accept a later valid one, after which it behaves exactly like a fresh filter given only the valid initialisation. An update is refused when a reading it needs is missing or not finite; readings of a gyrometer that the mode does not use make no difference.",
  ["histories", "fault_sequences", "configurations"], "all interleavings of valid and invalid init, update, configuration and attitude calls on the three filters and both modes",
  "The only test initialises each filter once, correctly.",
  [AR, AQ, DV], [("initialisation flag", AR + "/" + AQ + "/" + DV + " init"), ("argument validation before state changes", AR + "/" + AQ + "/" + DV + " init")],
  ["results of every call and attitudes against a fresh filter"])
p("C28", "Accelerometer/magnetometer mode points gravity down and north forward",
  "In accelerometer-magnetometer mode, after an update with a nonzero acceleration and a magnetic field not parallel to it, the attitude is the rotation that carries the vertical reference direction onto the measured acceleration direction and the horizontal part of the measured field onto the positive x reference direction. The result depends only on the directions of the current measurements, not on their magnitudes, on earlier measurements or on the initial attitude.",
  ["inputs", "histories"], "all pairs of acceleration and field directions at least 0.2 degrees apart, all magnitudes from 2e-4 to 1e15, all device attitudes including upside down, and any previous history",
  "The test only runs the other mode and prints.",
  [AQ, QT], [("algebraic quaternion from acceleration", AQ + " update"), ("algebraic quaternion from field", AQ + " update")],
  ["transformed measurement directions under the returned attitude"])
p("C29", "The fused update is gyro prediction followed by gain-limited corrections",
  "In full-sensor mode with fixed gains, one update equals the first-order gyro prediction of the previous attitude, then a rotation by the acceleration gain's fraction of the tilt correction, then one by the field gain's fraction of the heading correction about the vertical. With both gains zero only the gyro moves the attitude; with both gains one and no rotation the attitude becomes the one the accelerometer/magnetometer mode reports; the magnitudes of the acceleration and field do not matter. A gain or interpolation threshold outside [0,1] makes the update be refused, and the attitude does not move.",
  ["inputs", "configurations", "histories"], "all unit attitudes, rates up to 3000 rad/s, sampling periods from 1e-5 to 10 s, measurement magnitudes from 2e-4 to 1e15, gains and interpolation thresholds in [0,1], measurement directions away from the degenerate ones, over sequences of updates",
  "One benign three-step sequence with gains of 0.01 is printed.",
  [AQ, VX, QT], [("prediction", AQ + " update"), ("correction quaternions", AQ + " update"), ("interpolation from identity", AQ + " interpolate")],
  ["attitude after each update against a double-precision model of the published filter"])
p("C30", "With a stationary device the fused attitude converges to the measured one",
  "With zero rates and constant measurements, repeated updates of the full-sensor mode with gains in (0,1] bring the attitude to the one the accelerometer/magnetometer mode reports, whatever the initial tilt and heading, including upside down and exactly opposite; as soon as the tilt error is below a right angle no update increases it beyond rounding. The converged attitude is a fixed point of further updates.",
  ["histories", "inputs", "configurations"], "all stationary measurement pairs, initial attitudes with any tilt and any heading, gains from 0.05 to 1",
  "No test runs more than three updates or checks convergence.",
  [AQ], [("tilt and heading corrections", AQ + " update")],
  ["tilt error sequence and final attitude"])
p("C31", "The adaptive gain depends only on the current acceleration magnitude",
  "With the adaptive gain on, an update uses the full acceleration gain when the relative deviation of the measured acceleration magnitude from the reference gravity is at most the first threshold, none when it is at least the second, and a linearly decreasing part between; it never depends on earlier updates. Thresholds that are not strictly increasing are reported as an error.",
  ["inputs", "histories", "configurations"], "all pairs of thresholds, reference gravities, acceleration magnitudes on either side of the reference, over sequences mixing disturbed and quiet updates",
  "The adaptive gain is switched off in the only test.",
  [AQ], [("gain factor", AQ + " calculate_adaptative_gain")],
  ["attitude compared with the same filter with the equivalent fixed gain"])
p("C32", "Filters see only corrected measurements, from the current configuration",
  "A filter fed raw readings through a calibration behaves like the same filter with the transparent calibration fed the readings corrected by hand, for the angular-rate filter and both modes of the fused one. Sensor configurations set or read through the fused filter are those of the sensor named, take effect at the next update, and are refused for a sensor the filter has not initialised.",
  ["inputs", "configurations", "histories"], "all moderate calibrations of each sensor separately and together, changed between updates of a sequence",
  "Only the default calibration is ever used.",
  [AQ, AR, AC, GY, MA], [("sensor update before use", AQ + "/" + AR + " update"), ("configuration accessors", AQ + " set_/get_*_config")],
  ["attitudes of the two filters", "configurations read back"])
p("C33", "Complex arithmetic is correct",
  "A complex number holds the parts it was created with or last set to, and sum, difference, product, quotient, negation, conjugate, modulus, polar construction and exponential equal the mathematical result up to rounding and the library tolerance; swapping exchanges two numbers. Division by a number within tolerance of zero, non-finite parts, and operations whose result overflows are refused without changing the number; an operation is refused for overflow only when a partial result of the textbook formula exceeds the largest number.",
  ["inputs", "histories"], "all finite complex numbers, including zero, real and imaginary ones and extreme magnitudes; polar forms with negative modulus and angles of many turns",
  "The signal-processing crate has no tests.",
  [CX], [("component formulas", CX)],
  ["real and imaginary parts after each operation"])
p("C34", "Numeric helper functions obey their contracts",
  "The validity test accepts exactly the finite numbers and names the kind of invalid value; the closeness test holds exactly when the distance is at most the deviation; range test, minimum, maximum, clipping and sign agree with the ordering of the numbers, and something that is not a number is neither in a range nor clipped into one; the factorial is exact for every argument whose factorial fits the result type.",
  ["inputs"], "all single-precision bit patterns, all argument pairs including equal, signed-zero and boundary values, all factorial arguments up to 20",
  "The helper crate has no tests.",
  [UT], [("helper functions", UT)],
  ["returned values"])
p("C35", "Synthetic attitude sequences are unit, distinct and slowly varying",
  "A generated attitude sequence has the requested number of columns, every column is a unit quaternion, consecutive attitudes (starting from the identity) are at most the maximum step apart, the sequence for a smaller number is a prefix of the one for a larger, and the directions of successive steps differ. A number of attitudes outside the supported range is refused.",
  ["inputs"], "all 256 requested numbers of attitudes",
  "The test uses one sequence as input data and never checks it.",
  [OC], [("random attitude and interpolation", OC + " generate_random_attitudes")],
  ["columns of the returned matrix"])
p("C36", "A refusal names a cause that is present",
  "Whenever a call on a matrix, vector, quaternion, complex number, sensor or filter has to be refused, the error returned names a cause that is really present: not initialised, already initialised, size or index out of range, sizes that do not agree, not square, not symmetric, not positive definite, singular, interpolation factor out of range, a value that is not a number or is infinite, a missing reading or configuration, a filter method that does not exist. When a single cause is present the error is that one, and no error names a size, index or initialisation fault that is absent. What has not been initialised has no size, so the missing size may be named instead.",
  ["inputs", "fault_sequences", "configurations"], "all calls with combinations of initialised and uninitialised operands of all shapes, indices and sizes over the whole byte range, finite and non-finite scalars, and missing or non-finite arguments in any position",
  "The tests call unwrap; none looks at an error.",
  [MX, VX, LA, QT, AR, AQ, DV, GY, AC, MA, CX], [("argument validation", MX + "/" + VX + " argument checks"), ("error conversion between crates", AQ + "/" + AR + " map_err and From implementations")],
  ["kind of the returned error"])
p("C37", "What is displayed is what is stored",
  "Displaying a matrix or vector prints one line per row with every element of the row in order, rounded to three decimals, then a blank line and nothing else. Displaying the attitude of an initialised filter prints the four components that the filter reports, and is refused before initialisation. Displaying something that has not been initialised prints no number.",
  ["inputs", "histories"], "all shapes, all finite element values including very small, very large and half-way cases, and filter attitudes after any short history",
  "The tests print but nobody reads the output.",
  [MX, VX, AR], [("element loop and format", MX + " print, " + VX + " print"), ("attitude display", AR + " print_attitude")],
  ["standard output"])
p("C38", "Bit reversal of the FFT reverses exactly the requested bits",
  "For every number of bits from 0 to 8 the reversal of a byte is the byte whose low bits are those of the argument in the opposite order; bits above them are ignored and are zero in the result, so that reversing twice gives the low bits back. More than 8 bits are refused.",
  ["inputs"], "all 256 bytes and all 256 numbers of bits",
  "The signal-processing crate has no tests.",
  [FF], [("bit loop", FF + " bitrev")],
  ["returned value or error"], hook="the method is private; FFT::verif_bitrev calls it when built with cfg(verif)")
PD = "temp/dsp/src/main.rs"
PU = "temp/utils/src/lib.rs"
p("C39", "The prototype transform is the 16-point Fourier transform",
  "For every sequence of sixteen complex samples the transform of the prototype returns in each of its sixteen elements the sum of the samples times the powers of the sixteenth root of unity, within the rounding of the angles. It never returns a result that is not finite: it succeeds for sequences whose transform is representable and may be refused only when the sum of the magnitudes exceeds the largest number.",
  ["inputs"], "all sequences of sixteen finite complex samples: impulses, tones, integer and random samples, real and complex, at magnitudes from 1e-20 to the largest number",
  "The program transforms one fixed sequence and is not run by any test.",
  [PD], [("double loop of the transform", PD + " dft_naive")],
  ["returned elements or error"], hook="the function is private to the program; verif_dft_naive calls it when built with cfg(verif)")
p("C40", "Complex arithmetic of the prototype is exact up to rounding",
  "Complex numbers of the prototype hold what was set. Sum, difference, product, quotient, negation, conjugate, modulus, exponential, polar form, copy, duplicate and exchange give the mathematical result up to rounding; the in-place form of an operation gives the same as the other form; operands that are only read keep their values. Parts that are not finite and divisors within the tolerance of zero are refused and nothing changes.",
  ["inputs"], "all pairs of complex numbers with parts up to 1e18, angles of many turns, and every kind of non-finite part",
  "The prototype has no tests.",
  [PD], [("arithmetic", PD + " Complex add/sub/mul/div and in-place forms"), ("conversion and validation", PD + " Complex new, setters, getters, convert_from_polar, expo")],
  ["parts of the numbers", "returned modulus or error"])
p("C41", "The numeric helpers of the prototype keep the contract of the helpers",
  "What is claimed for the numeric helpers of the library holds for their copies used by the prototype: validity, sign, range, minimum and maximum, clipping, closeness and factorial agree with their definitions for every value.",
  ["inputs"], "all finite and non-finite bit patterns, bounds and deviations in either order and of either sign, and all factorial arguments whose result fits",
  "The prototype has no tests.",
  [PU], [("helper functions", PU + " all functions")],
  ["returned values and errors"])
p("C42", "The fused filter follows a moving device",
  "With rates and measurements that belong to one motion (in the convention of the repository's measurement generator: the rates turn the attitude in its own frame, the measured directions are gravity and field turned by the attitude), a full-sensor filter started at the true attitude stays with the device: its error never exceeds the sum of the discretisation errors of the gyro steps and of rounding, up to a factor from the dip of the field. Started anywhere near, it converges to the motion until only the discretisation error remains. In accelerometer/magnetometer mode every update reports the attitude of the device itself.",
  ["histories", "inputs", "configurations"], "motions of up to 400 updates about a fixed, slowly wandering or jumping axis, steps up to 0.15 rad, all attitudes, periods from 1e-5 to 10 s, field dips up to 60 degrees, magnitudes from 2e-4 to 1e15, fixed gains or adaptive ones at the reference magnitude, starting errors up to 60 degrees of tilt and any heading",
  "The only test feeds three samples and prints.",
  [AQ, OC, "generate_raw_measurements.py"], [("prediction and corrections", AQ + " update"), ("rate matrix", OC + " calculate_omega_matrix")],
  ["angle between the reported attitude and that of the simulated device after each update"])
p("C43", "The magnetometer turns the attitude only about the vertical",
  "Two fused filters that differ only in what their magnetometers read, or in the gain, threshold or calibration applied to it, report the same vertical direction after the same update, and after every update of a history at rest or without a gyrometer: a magnetic disturbance never tilts the attitude.",
  ["inputs", "configurations", "histories"], "all attitudes, rates, accelerations and pairs of field directions and magnitudes, gains and thresholds in [0,1], magnetometer calibrations, both modes, fixed and adaptive gains",
  "No test gives two filters different fields.",
  [AQ], [("heading correction about the vertical", AQ + " update"), ("partial orientation from acceleration alone", AQ + " update")],
  ["vertical direction under the attitudes of the two filters"])
p("C44", "Objects are independent of one another and results repeatable",
  "What a filter, a sensor, a matrix or a quaternion reports depends only on its own configuration and its own history of calls: operations on other objects in between, of the same or another kind, earlier or in another thread, change nothing, not even in the last bit; the same history always gives the same results.",
  ["histories", "schedules", "configurations"], "two to four objects among rate filters (all methods and orders), fused filters (both modes), the three sensors, matrices and quaternions, each with up to six operations, under any interleaving, and one thread per object",
  "Each test uses one object of a kind and looks at it once.",
  [AR, AQ, GY, AC, MA, MX, LA, VX, QT], [("state kept in the object only", AQ + "/" + AR + " structs and update"), ("results computed from the arguments only", LA + ", " + MX + ", " + QT)],
  ["every result and error, compared bit for bit with the same history alone"])
p("C45", "The past matters only through the reported attitude",
  "After any past, however long and including refused updates, a filter continues exactly as a new filter initialised with the same configuration at the attitude it reports: it accepts and refuses the same updates and reports the same attitudes. A sensor, after any past of readings and configurations, reads what a new sensor with its present configuration reads. Nothing else accumulates, wears out or warms up.",
  ["histories", "inputs", "configurations"], "pasts of 1 to 12 updates, of several hundred and of more than 65,536, ordinary, disturbed and refused ones, for the rate filter with every method and order, both modes of the fused filter with fixed and adaptive gain, and the three sensors with configurations changed in between",
  "The longest history in the tests has three updates.",
  [AR, AQ, GY, AC, MA], [("only the attitude is carried over", AR + "/" + AQ + " update"), ("readings replaced as a whole", GY + "/" + AC + "/" + MA + " update and set_config")],
  ["attitudes, readings and refusals of the old and the new object side by side"])
p("C46", "A measurement without a direction corrects nothing",
  "An update of the fused filter whose corrected acceleration or field is zero never turns the attitude by it. It is either refused, leaving the attitude as it was, or accepted with everything but that correction: without an acceleration the attitude follows the rates and the heading correction only, without a field the rates and the tilt correction only. The mode without gyrometer never changes its attitude on such an update. It makes no difference whether the readings themselves are zero or only what the calibration makes of them, and the updates before and after are not affected.",
  ["inputs", "histories", "configurations"], "histories of one to six updates in both modes from any attitude, with acceleration, field or both at zero or far below the tolerance, zero readings or readings equal to the bias, fixed and adaptive gains with thresholds of any width",
  "No test gives a filter a null measurement.",
  [AQ, VX, AC, MA], [("guard of the acceleration magnitude", AQ + " update"), ("normalisation of a null vector", VX + " normalize"), ("interpolation with a zero gain", AQ + " interpolate")],
  ["attitude before and after the update", "refusal"])
p("C47", "Synthetic raw measurements describe the requested motion",
  "The measurements generated for an attitude given by roll, pitch and yaw, the attitude before it and a sampling period are those of ideal sensors: the acceleration is gravity (9.81, downwards) and the magnetic field the horizontal field (48, northwards), both turned by roll, then pitch, then yaw, and the angular rate is the body rate that belongs to the change of the three angles in one period. All are finite columns of three. Run as a program, the generator writes the named columns and the samples recorded in the repository.",
  ["inputs"], "roll and yaw of any number of turns, pitch of any number of turns except within 0.1 degree of a quarter turn, whole and fractional degrees, changes from none to several turns, periods of 1e-4 s to 10 s and the default",
  "No test runs the script; it produces the data a user tries the filters with.",
  ["generate_raw_measurements.py"], [("rotation matrices and their order", "generate_raw_measurements.py GenerateRawMeasurements"), ("angle rates to body rates", "generate_raw_measurements.py Omega"), ("file of samples", "generate_raw_measurements.py main, build/raw_measurements.csv")],
  ["acceleration, field and rate returned", "file written"])
p("C48", "The default build, without the standard library, behaves no differently",
  "Everything claimed for matrices, vectors, quaternions, complex numbers, helpers, sensors and filters also holds for the library as it is built by default, without its std feature, as on a microcontroller: choosing the feature adds the displays and the synthetic attitudes and changes no result, refusal or stored value.",
  ["configurations", "inputs", "histories"], "all inputs and histories of the other properties that do not need the std feature, in a build without it",
  "The tests are built in one configuration and cover what they cover.",
  [MX, VX, LA, QT, "open_ahrs/src/lib.rs", "dsp/src/lib.rs"], [("choice of the standard library", "std and no_std features of linalg, quaternion, open_ahrs and dsp"), ("parts left out", MX + " print, open_ahrs/src/common.rs generate_random_attitudes")],
  ["whatever the other properties observe"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for e in P:
        assert len(e["title"]) <= 80, (e["id"], len(e["title"]))
        f.write(json.dumps(e) + "\n")
print(len(P))
