#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing; no check depends on it)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, note, obs=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, obs=obs or []))

CORE = "cv-core/src/"
p("C01", "Homogeneous points mean the same in every representation",
  "A homogeneous point and any positive multiple of it are the same point: it is stored with a unit direction and a non-negative inverse distance, its bearing is that direction, and its euclidean position (if it has one that can be represented) is the coordinates divided by the weight. A negated homogeneous vector is the same point too, so a point never ends up in the opposite direction because of the sign of its weight. A point at infinity, or one too far to represent, has a bearing but no euclidean position; euclidean positions survive the round trip and are never non-finite.",
  ["inputs"], "every homogeneous vector (x, y, z, w), including zero, tiny, huge and negative weights and every positive or negative rescaling; camera and world points",
  "There is no test of the point types at all; the guarantee is over a continuum of scales, signs and weights at which the representation changes case.",
  [CORE+"point.rs"], [("Projective::from_homogeneous normalisation and sign", CORE+"point.rs: from_homogeneous"), ("euclidean conversion and bearing", CORE+"point.rs: point, from_point, bearing")],
  "Exact comparison with a reference model on the whole product of alphabets for the four coordinates, scale and point kind; says nothing about coordinate values outside the alphabet.")
p("C02", "Poses form the group of rigid motions and act on points consistently",
  "Transforming points by poses agrees with the group of rigid motions: the inverse pose undoes a pose, scaling a pose scales its translation only, the six-component logarithm form and the homogeneous matrix round trip, and changing a pose's kind keeps the motion. The four transformation entry points return the same normalised point for finite points and for points at infinity. The transform between two reconstructions that share a camera maps the first reconstruction's world onto the second's.",
  ["histories", "inputs"], "every sequence of pose operations (invert, scale, logarithm round trip, rebuild from parts, convert between kinds, append a tangent step, change reconstruction) from the identity, and every pose of an axis/angle/translation lattice, applied to near, far and infinite points",
  "Existing tests sample random poses for one Jacobian; composition errors (wrong side, wrong order, wrong inverse) only show in sequences of operations on poses with both rotation and translation.",
  [CORE+"pose.rs", CORE+"so3.rs"], [("Pose trait: inverse, scale, se3, from_se3, homogeneous, transform*", CORE+"pose.rs: trait Pose"), ("WorldToWorld::from_camera_poses", CORE+"pose.rs")],
  "Breadth-first search over all operation sequences within a translation box (state space closes) against exact signed-permutation rotations, plus a lattice of general poses in units of length from tiny to huge; numerical tolerance 1e-12.")
p("C03", "Rotation vectors and rotations convert into each other without loss",
  "The exponential of a rotation vector is the rotation about that axis by its length, and the logarithm of any rotation is a rotation vector of length at most pi whose exponential is that rotation. For lengths below pi the logarithm returns the original vector, with small vectors keeping their relative precision. This includes half turns, rotations within rounding of a half turn and tiny rotations.",
  ["inputs"], "every rotation axis direction and every angle, in particular 0, tiny angles, pi and its neighbourhood, and angles beyond pi",
  "The existing tests of cv-core sample random moderate rotations; the conversion has singularities at 0 and pi that random samples never reach.",
  [CORE+"so3.rs"], [("exponential map", CORE+"so3.rs: From<Skew3> for Rotation3, rotation, rotation_small"), ("logarithm with branches near 0 and pi", CORE+"so3.rs: From<Rotation3> for Skew3"), ("Pose::se3/from_se3", CORE+"pose.rs")],
  "All axes of a lattice times all angles of an alphabet dense around the singularities, compared with Rodrigues' formula evaluated independently.")
p("C04", "Tangent-space steps compose, scale and negate as documented",
  "A tangent-space step first translates, then rotates the result; negating it undoes its rotation exactly and the motion to first order. Scaling, summing and vector conversion act componentwise on translation and rotation, the L1 form has unit length per part and leaves a zero part zero, and the sum of nothing is the neutral step. A part containing an undefined number is discarded on its own, so a step is always a defined rigid motion.",
  ["inputs", "histories"], "every pair of translation and rotation vectors, every sum of up to three steps in any order, every pattern of undefined components",
  "There is no test of tangent-space steps; optimizers add up many of them, so a fault only shows through sums and degenerate parts.",
  [CORE+"so3.rs"], [("Se3TangentSpace", CORE+"so3.rs: new, identity, inverse, isometry, rotations, scale*, to_vec, from_vec, l1, Add, AddAssign, Sum")],
  "Complete products of vector alphabets (including all 4^6 patterns of undefined components) against an independent model.")
p("C05", "Pose Jacobians are the derivatives of the point transformation",
  "The derivative of a transformed homogeneous point in respect to the input point, and in respect to a small translation followed by a rotation vector applied after the pose, equals what the pose reports. All entry points report the same Jacobians. This holds for every kind of pose, for finite points and for points at infinity.",
  ["inputs"], "every pose of an axis/angle/translation lattice, every kind of pose, near, far and infinite points, all 40 Jacobian entries; and central differences of the implementation's own transformation",
  "The existing test compares one product on random input; a transposed or negated block only shows at particular poses and points and never in the values of the transformation itself.",
  [CORE+"pose.rs", CORE+"so3.rs"], [("transform_jacobians, transform_jacobian_input, transform_jacobian_self", CORE+"pose.rs: trait Pose"), ("Skew3::jacobian_self", CORE+"so3.rs")],
  "Entry-by-entry comparison with the closed form over the complete lattice and with finite differences of the real transform over a sublattice.")
p("C06", "Rotation vectors obey the algebra of so(3)",
  "The matrix form of a rotation vector is the cross product with it, its square form is the square of that matrix, and reading the vector from the matrix returns it. The bracket of two rotation vectors is their cross product: antisymmetric and satisfying the Jacobi identity. The reported Jacobians of a rotated point are the rotation itself (input) and the negated cross-product matrix of the output (rotation).",
  ["inputs"], "every pair and triple of rotation vectors from an alphabet with zero, tiny, axis-aligned, generic and large vectors",
  "There is no test of these operations beyond one sampled Jacobian.",
  [CORE+"so3.rs"], [("Skew3", CORE+"so3.rs: hat, hat2, vee, bracket, jacobian_input, jacobian_self")],
  "Complete pairs and triples of the vector alphabet against an independent implementation.")
p("C07", "Absolute pose residual measures the angle to the landmark",
  "The residual of an absolute pose for an observed bearing and a landmark is one minus the cosine of the angle between the observation and the landmark as seen from the camera. It is zero for a perfect observation, two for an opposite one, never outside that range, and does not depend on the landmark's distance; landmarks at infinity are compared by direction.",
  ["inputs"], "every pose of a lattice, near, far and infinite landmarks on all sides, deviations of 0 to 180 degrees in eight directions",
  "No test calls the residual; consensus uses it on every match.",
  [CORE+"pose.rs"], [("Model<FeatureWorldMatch> for WorldToCamera", CORE+"pose.rs: residual")],
  "Complete product of poses, landmarks and known angular deviations, against the known angle.")
p("C08", "Relative pose residual is exact, chirality-aware and always defined",
  "The residual of a relative pose for a pair of bearings that meet in front of both cameras is zero, plus one for every bearing that would have to be reversed for that. For any other pair it is that of the point which fits both bearings best (least squares), so deviations from the epipolar plane give a strictly positive residual of second order. The residual is a number between zero and two for every pose and every pair of bearings, degenerate or not.",
  ["inputs"], "every pose of a lattice (including pure rotations and no motion), scene points in front of and behind the cameras, all sign patterns, all pairs of lattice bearings",
  "No test calls the residual; undefined or wrong-sided values appear only for degenerate geometry and reversed bearings.",
  [CORE+"pose.rs"], [("Model<FeatureMatch> for CameraToCamera", CORE+"pose.rs: residual")],
  "Complete products of poses, points, signs and deviations, against the geometric definition.")
PIN = "cv-pinhole/src/lib.rs"
p("P01", "Pinhole calibration and projection are inverse to each other",
  "Calibrating a pixel gives the unit bearing through it by the focal lengths, principal point and skew, and projecting that bearing returns the pixel; projecting any bearing in front of the camera and calibrating returns the bearing. The calibration matrix agrees with both. Bearings beside or behind the camera have no pixel.",
  ["inputs", "configurations"], "every combination of focal lengths, principal point and skew, pixels inside and far outside the image, bearings forwards, sideways and backwards",
  "Doc tests check two cameras; skew combined with unequal focals and bearings that are not in front are never exercised.",
  [PIN], [("CameraIntrinsics: calibrate, uncalibrate, matrix, builders", PIN)],
  "Complete product of camera parameters and pixels or bearings against the pinhole equations.")
p("P02", "Radial distortion and its inverse agree everywhere they are defined",
  "Calibrating a pixel through the one-parameter radial distortion gives the bearing of the undistorted position, and projecting that bearing returns the pixel wherever the distortion is invertible, including the image centre, vanishing distortion and both signs of the parameter. Without distortion the camera equals the plain pinhole camera. Bearings that no pixel has, beside or behind the camera or beyond the fold, have none, and no result is undefined.",
  ["inputs", "configurations"], "every combination of camera parameters, distortion parameter (zero, tiny, moderate, large, both signs), radius (zero to far outside) and direction; bearings in front, sideways and behind",
  "A doc test checks one pixel of one camera; the quadratic inverse is singular at the centre and for zero distortion.",
  [PIN], [("CameraIntrinsicsK1Distortion: calibrate, uncalibrate", PIN)],
  "Complete product over cameras, parameters, radii and directions against the closed-form model evaluated without cancellation.")
p("P03", "Centred intrinsics put the principal point in the middle of the pixel grid",
  "A camera specification made from a sensor size has pixel dimensions that tile the sensor, square ones if so requested. Intrinsics centred on it have the requested focal length, no skew, and a principal point around which the grid of pixel centres is symmetric, so opposite corner pixels have mirrored bearings.",
  ["configurations"], "every combination of image width and height (odd, even, one), sensor width and height, and focal length",
  "No test covers specifications; unequal width and height or non-square pixels are needed to tell the quantities apart.",
  [PIN], [("CameraSpecification: from_sensor, from_sensor_square, intrinsics_centered", PIN)],
  "Complete product of sizes against the definition.")
p("P04", "Reprojection error compares each view with the triangulated point",
  "The reprojection error of a match under a relative pose is, per view, the observed normalised image position minus that of the triangulated point as seen from that view; the average error is the mean of the two lengths. It is unavailable exactly when the point cannot be triangulated or is not in front of both cameras.",
  ["inputs"], "every relative pose of a lattice, every triangulated point in front, beside, behind and at infinity (including refusal), several bearings per view",
  "The doc example checks one perfect match, for which all errors vanish.",
  [PIN], [("pose_reprojection_error, average_pose_reprojection_error", PIN)],
  "Complete product with a stand-in triangulator that answers every point of a lattice, so the expected error is known.")
TRI = "cv-geom/src/triangulation.rs"
p("G01", "Two-view triangulation recovers the scene point in any unit of length",
  "From the exact bearings of a point in two cameras with parallax, every relative triangulator returns that point (the approximate mean-of-means method at least answers when parallax is small); the result is a normalised homogeneous point. Expressing the scene in another unit of length scales the result and changes nothing else.",
  ["inputs", "configurations"], "every method, relative pose of a lattice (half turns, pure axis motions), scene point on all sides, and unit of length",
  "The existing tests sample random scenes in front of nearly parallel cameras and accept failures of the approximate methods.",
  [TRI], [("LinearEigenTriangulator, SineL1Triangulator, RelativeDltTriangulator, MeanMeanTriangulator, AngularL1Triangulator, AngularLInfinityTriangulator", TRI), ("default triangulate_relative through observations", CORE+"triangulation.rs")],
  "Complete product of methods, poses, points and scales against the known point, with tolerances from the conditioning of each case.")
p("G02", "Triangulated points always lie in front of every camera",
  "Whatever the relative pose and the two bearings, a triangulator either refuses or returns a finite homogeneous point that lies in the half space each bearing points into. Bearings whose lines meet only behind a camera are refused by the exact methods.",
  ["inputs"], "every method, every pose of a lattice including pure rotations and no motion, every ordered pair of 30 bearings (degenerate, parallel, opposite), and every reversal of exact bearings",
  "The tests only use consistent, forward bearings, so rejection is never exercised.",
  [TRI, CORE+"triangulation.rs"], [("chirality tests of all triangulators", TRI)],
  "Complete product; the half-space oracle is independent of how the point is computed.")
p("G03", "Many-view triangulation does not depend on frame, order or repetition",
  "From any two or more exact observations with parallax the observation triangulators return the observed point, whichever cameras are used, in whatever order and with repetitions, and whatever rigid frame the world is expressed in. Fewer than two observations are refused. The variants that answer in a camera's frame agree with the world answer seen from that camera.",
  ["histories", "inputs"], "every sequence of up to four (thorough: five) of five cameras, several rigs, points on all sides, and changes of world frame",
  "The tests use one fixed sequence of two views; iterator handling, accumulation over views and the frame of the answer are not exercised.",
  [TRI, CORE+"triangulation.rs"], [("triangulate_observations of Linear, Sine, MeanMean", TRI), ("triangulate_observations_to_camera, TriangulatorRelative for observations", CORE+"triangulation.rs")],
  "All camera sequences up to the bound times rigs, points and frames.")
p("G04", "Optimal triangulators minimise the errors they are named after",
  "For inconsistent bearings, the L1 and L-infinity angular triangulators return a point whose bearings lie on a common epipolar plane and whose summed or largest angular correction is the smallest possible. The linear triangulator minimises its algebraic error over all unit homogeneous points, the direct linear one returns the last right singular vector of its equations, and the mean one the projection distances' mean; the refined one never has a larger squared ray distance than the linear one and no better neighbouring point. This holds for any number of cameras, noise and unit of length, wherever the answer is determined and in front of every camera.",
  ["inputs"], "every method, relative pose of a lattice, scene point, size, sign and sharing of the deviation, two to seven cameras, and neighbouring candidate points in all directions",
  "No test measures optimality: any approximately right point passes.",
  [TRI], [("AngularL1Triangulator, AngularLInfinityTriangulator, LinearEigenTriangulator, SineL1Triangulator", TRI)],
  "Complete product; the smallest achievable cost is found independently by sweeping all epipolar planes or all neighbouring points, and an independent implementation of each method (Jacobi sweeps, normal equations, closed forms) gives the point it must return, with a tolerance from its conditioning.")
EPI = "cv-geom/src/epipolar.rs"
p("G05", "Epipolar gradients and losses follow the geometry they describe",
  "The point and world-pose gradients move a point onto its observed ray by the shortest way and turn it towards the bearing. The three-view gradients equal the shared epipolar-plane rotations and the ray displacements of points triangulated in front of the cameras, vanish for consistent observations, and are always finite. The two-view loss is zero exactly for consistent bearings, symmetric, equal to the sine of the smaller correction onto a common plane, one for opposed bearings, and never outside its range.",
  ["inputs"], "every camera position, bearing, scene point, noise pattern and reversal pattern of the lattices, and degenerate configurations (shared centres, views along the baseline)",
  "No test covers this module; a wrong sign still often converges in the optimizer examples.",
  [EPI], [("point_gradient, world_pose_gradient, loss, three_view_gradients", EPI)],
  "Complete products against an independent construction of the same geometric quantities.")
LT="lambda-twist/src/lib.rs"
p("G06", "Solver options act independently and limits never yield wrong results",
  "Every sequence of option setters leaves a triangulator or pose solver with exactly the last value given to each option. With an iteration limit of any size, a triangulator or pose solver either finds the right result or finds none: it never returns a wrong point, a pose that is not a motion or one that the unlimited solver does not have, and never panics; a limit of a hundred loses nothing. Refining with no steps or steps of no length gives the linear result, exact observations stay where they are at every rate, and more refinement of a pose never reproduces its samples worse.",
  ["histories", "inputs"], "every sequence of setters of the options of every configurable solver (until no new state appears); every limit, rate, relative pose, point, noise pattern and triple or window of samples of the lattices",
  "The options only matter when their limits are met, which no test does.",
  ["cv-geom/src/triangulation.rs", LT, "eight-point/src/lib.rs", "nister-stewenius/src/lib.rs", "cv-pinhole/src/essential.rs"],
  [("LinearEigenTriangulator, RelativeDltTriangulator, SineL1Triangulator setters", "cv-geom/src/triangulation.rs"), ("LambdaTwist setters", LT), ("possible_rotations_unscaled_translation, recondition", "cv-pinhole/src/essential.rs")],
  "The setters are explored as a transition system whose reference state is the record of the last values; results under limits are compared with the true scene and with the unlimited results.")
ESS = "cv-pinhole/src/essential.rs"
p("E01", "Essential matrices decompose into exactly the four possible poses",
  "The essential matrix made from a relative pose is the cross-product matrix of its translation times its rotation. Decomposing any non-zero multiple of it gives proper rotations and unit translations that all have that essential matrix; the four candidates are distinct, exactly one is the true motion up to scale, and exactly one puts a given visible point in front of both cameras. Any other matrix is decomposed into proper rigid motions as well.",
  ["inputs"], "every relative pose of a lattice (all 24 axis-aligned rotations included), every scale and sign, every visible point, and all 19683 matrices with entries -1, 0, 1",
  "The tests sample random poses with a tolerance and accept any ordering; degenerate singular values and half turns are not reached.",
  [ESS], [("From<CameraToCamera>, possible_rotations_unscaled_translation, possible_rotations, possible_unscaled_poses, possible_unscaled_poses_bearing", ESS)],
  "Complete enumeration against an independent construction of essential matrices.")
p("E02", "Reconditioning returns the closest essential matrix",
  "Reconditioning any matrix returns an essential matrix: singular, with two equal singular values. It is the closest such matrix, having the mean of the two larger singular values of the input, and reconditioning again changes nothing. It never refuses a finite matrix with enough iterations allowed.",
  ["inputs"], "all 19683 matrices with entries -1, 0, 1 and perturbed essential matrices at several scales",
  "The test checks one random family; singular and rank-deficient inputs decide whether the order of singular values is handled.",
  [ESS], [("EssentialMatrix::recondition", ESS)],
  "Complete enumeration; distance and singular values are computed independently.")
p("E03", "Essential matrix residual is the epipolar constraint of both bearings",
  "The residual of an essential matrix for a match is the absolute epipolar constraint of the two normalised image positions. It vanishes for consistent matches, is the same seen from the other camera, and is proportional to the matrix with its sign irrelevant.",
  ["inputs"], "every relative pose of a lattice, scene points on all sides, deviations of either bearing",
  "No test evaluates the residual on inconsistent matches.",
  [ESS], [("Model<FeatureMatch> for EssentialMatrix", ESS)],
  "Complete product against the definition.")
p("S01", "Three-point pose estimation finds the true pose and only valid ones",
  "From the exact bearings of three landmarks with positions the estimator lists the true camera pose whenever the configuration determines it, whatever the pose, order of landmarks and unit of length. Every listed pose is a rigid motion that reproduces the three bearings with the landmarks in front. Landmarks at infinity give no hypothesis, and any triangle and bearings are handled without failure.",
  ["inputs"], "every triple (in every order) of several landmark sets, every camera pose of a lattice including half turns, and every triangle and triple of lattice bearings",
  "The three tests use fixed or random moderate poses; the algorithm branches on cubic and quadratic cases that need special configurations.",
  ["lambda-twist/src/lib.rs"], [("LambdaTwist::estimate, compute_poses_nordberg, cubic and eigenvalue helpers", "lambda-twist/src/lib.rs")],
  "Complete enumeration of triples, poses and bearing triples; conditioning of each case is computed independently to set the tolerance.")
p("S02", "Eight-point estimation satisfies all matches and finds the true motion",
  "From eight exact matches that determine it, the estimated matrix is the true essential matrix up to scale and the four hypotheses contain the true motion, in any order of matches. From any eight matches at all the estimate is a unit matrix that satisfies all eight constraints, and the four hypotheses are rigid motions with unit translation.",
  ["inputs"], "every eight-element sample of several landmark sets in several orders under a lattice of motions, and every match pattern generated by strides over 30 bearings (parallel to the image plane, repeated, degenerate)",
  "The test samples random scenes; the choice of the null vector fails only for particular eigenvalue orders.",
  ["eight-point/src/lib.rs"], [("EightPoint::from_matches, estimate, encode_epipolar_equation", "eight-point/src/lib.rs")],
  "Complete enumeration; an independent eigenvalue computation decides whether a sample determines the motion.")
p("S03", "Five-point estimation lists the true motion and only valid ones",
  "From five exact matches that determine it, the estimator lists the true motion. Every hypothesis is a rigid motion with unit translation that satisfies the five matches, for any five matches with finitely many solutions. The hypotheses do not depend on the order of the matches or the orientation of the cameras, and trading the cameras inverts them; no input makes the estimator hang or fail.",
  ["inputs"], "every five-element sample of several landmark sets under a lattice of motions, and every match pattern generated by strides over 30 bearings with permutations, rotations and exchange of the cameras",
  "The test checks that random scenes mostly give an accurate hypothesis; spurious, missing and order-dependent hypotheses go unnoticed.",
  ["nister-stewenius/src/lib.rs"], [("five_points_nullspace_basis, polynomial constraints, compute_rotations, NisterStewenius::estimate", "nister-stewenius/src/lib.rs")],
  "Complete enumeration; an independent algebraic test decides which matches have finitely many well-conditioned solutions.")
OPT = "cv-optimize/src/"
p("O01", "Single-view pose refinement takes the documented steps and keeps a true pose",
  "Each iteration moves the pose by the optimization rate times the mean (L2) or median-like weighted (L1) gradient of the landmarks with positions, until there was no progress for the documented patience. The true pose is a fixed point, small errors shrink, and no iterations or no landmarks leave the pose unchanged; the result is always a rigid motion. The result does not depend on the order of landmarks, the world frame, the camera frame or the unit of length, and continuing equals not having stopped.",
  ["histories", "inputs"], "every step of every run up to the iteration bound, for every true pose, landmark set (including landmarks at infinity), starting error, rate and method of the lattices",
  "There is no test of cv-optimize; sequences of iterations and their invariances cannot be sampled by examples.",
  [OPT+"single_view_optimizer.rs"], [("single_view_simple_optimize_l1, single_view_simple_optimize_l2", OPT+"single_view_optimizer.rs")],
  "Every iteration of every enumerated run is compared with an independent step function; early-stop only judged by patience.")
p("O02", "Three-view pose refinement takes the documented steps and keeps true poses",
  "Each iteration moves both poses by the combined three-view gradients of all landmarks (mean, median-like or agreement-weighted), until there was no progress for the documented patience. True poses are a fixed point, no iterations or no landmarks leave the poses unchanged, and the results are always rigid motions. The result does not depend on the order of landmarks, on exchanging the two outer views, on any camera's frame or on the unit of length, and continuing equals not having stopped.",
  ["histories", "inputs"], "every step of every run up to the iteration bound, for every rig, landmark set (with mismatches and degenerate landmarks), starting error, rate and method of the lattices",
  "There is no test of cv-optimize; sequences of iterations and their invariances cannot be sampled by examples.",
  [OPT+"three_view_optimizer.rs"], [("three_view_simple_optimize_l1, three_view_simple_optimize_l2, three_view_adaptive_optimize_l2", OPT+"three_view_optimizer.rs")],
  "Every iteration of every enumerated run is compared with an independent combination of the gradients that G05 decides.")
p("Z01", "Stored values come back unchanged",
  "Writing a pose of any kind, a point, a rotation vector, a key point, camera intrinsics (with or without distortion) or a camera specification in a serialised form and reading it back gives the same value, bit for bit, for every finite value.",
  ["inputs"], "every pose of a lattice in all four kinds, points over extreme and denormal coordinates, every camera of a lattice, specifications up to the largest size; through text and through a value tree",
  "No test serialises anything.",
  [CORE+"pose.rs", CORE+"point.rs", CORE+"so3.rs", CORE+"keypoint.rs", PIN], [("serde derives behind the serde-serialize features", "cv-core/src, cv-pinhole/src")],
  "Complete product of the alphabets, bitwise comparison.")

AK = "akaze/src/"
p("K01", "AKAZE image operators are the filters they are named after",
  "The separable filters equal a direct convolution with the picture extended by its border, for every picture size and kernel. The Gaussian kernel is normalised, symmetric and falls off as the Gaussian; blurring, halving (the mean of each two-by-two block; a left-over last row or column takes the place of its neighbour), first and second derivatives at every scale (normalised so that a ramp has slope one) and the determinant of the Hessian are exact on every impulse. Every pixel format is read as the intensity it stands for, and picture views agree with the picture.",
  ["inputs", "configurations"], "every picture size up to a bound and every position of an impulse (which determines a linear operator completely), every scale, kernel width and pixel format",
  "Two photographs are all the tests process; borders, odd sizes, widths below a kernel and other pixel formats never occur.",
  [AK+"image.rs", AK+"derivatives.rs", AK+"detector_response.rs"], [("horizontal_filter, vertical_filter, separable_filter, gaussian_kernel, gaussian_blur, half_size", AK+"image.rs"), ("simple_scharr_*, scharr_*, compute_hessian_determinant", AK+"derivatives.rs")],
  "Exhaustive over sizes, impulses, scales and formats, on akaze compiled through a shim with stand-ins for the unavailable crates image and ndarray.")
p("K02", "The nonlinear scale space follows the diffusion equation at the right times",
  "The scale space has one level per octave and sublevel that fits the picture, with the documented scale, evolution time and octave. The steps of every diffusion cycle are positive and add up to the time between its levels. Every level is the explicit diffusion of the one before it with the conductivity of the blurred gradient and the measured contrast. A flat picture stays flat, every level stays within the range of the picture and is always defined, and mirroring, turning or scaling the picture does the same to all levels.",
  ["inputs", "configurations"], "every picture size up to 170 by 170, octaves and sublevels; every cycle length; every 3 by 3 black and white patch; pictures, options, contrasts and symmetries of the lattices",
  "The tests see the scale space only through the number of features of two photographs.",
  [AK+"evolution.rs", AK+"fed_tau.rs", AK+"nonlinear_diffusion.rs", AK+"contrast_factor.rs"], [("allocate_evolutions, create_nonlinear_scale_space", AK+"evolution.rs, "+AK+"lib.rs"), ("fed_tau_by_process_time", AK+"fed_tau.rs"), ("calculate_step, pm_g2, compute_contrast_factor", AK+"nonlinear_diffusion.rs, "+AK+"contrast_factor.rs")],
  "Every level of every enumerated picture is compared with an independent implementation of the transition; reaches the private scale space by including the sources.")
p("K03", "AKAZE detects exactly the significant extrema, once each, at the right place",
  "A feature is reported exactly where the response is a local maximum above the threshold that is far enough from the border and not weaker than a nearby one at the same or a neighbouring level. It is placed at the vertex of the quadratic through its neighbours, with the size and octave of its level, and refinement never moves it by more than a pixel. Its direction is that of the strongest window of the weighted gradients around it.",
  ["inputs", "configurations"], "every position of one, two and three peaks on a lattice of positions and levels, every pattern of the eight neighbours, every offset and curvature, every direction in half degrees, every pair of directions",
  "The tests only count the features of two photographs.",
  [AK+"scale_space_extrema.rs"], [("find_scale_space_extrema, do_subpixel_refinement, compute_main_orientation, detect_keypoints", AK+"scale_space_extrema.rs")],
  "The response stacks are constructed, so the right answer is known for every enumerated configuration.")
p("K04", "AKAZE descriptors compare the cells they are specified to compare",
  "The descriptor of a feature consists of the comparisons of the mean intensity and gradients between all pairs of cells of the two-, three- and four-part grids around it, turned and scaled with the feature, with the announced number of bits and zero padding. Features whose pattern leaves the picture are left out and the rest keep their order, direction and descriptor together.",
  ["inputs", "configurations"], "every direction in steps of 3.75 degrees, pattern size, number of channels, octave and scene; every position of the pattern over the rim of the picture; every order of three features",
  "The tests only count matches between two photographs, which tolerate many wrong bits.",
  [AK+"descriptors.rs"], [("extract_descriptors, get_mldb_descriptor, mldb_fill_values, mldb_binary_comparisons", AK+"descriptors.rs")],
  "Each bit is compared with an independent computation; bits whose comparison is decided by rounding are not judged.")
p("K05", "AKAZE finds the same features however a picture is moved and computed",
  "Extracting features from a picture never fails, whatever its size; every feature lies inside it, carries one descriptor and is strong enough, and the limit on features keeps the strongest. Brightness scaled by a power of two with scaled thresholds, quarter turns, mirroring and shifts move the features along with the picture. A lone spot is found where it is, with a size that grows with its own. The parallel build gives the same result as the sequential one under every schedule. The two reference photographs have the documented number of features and matches.",
  ["inputs", "configurations", "schedules"], "every picture size up to 30 by 30, every limit, every spot position, radius and polarity, 40 scenes under 13 motions, and every schedule of the parallel build with up to two deviations",
  "The tests run one schedule on two photographs.",
  [AK+"lib.rs", AK+"evolution.rs", AK+"scale_space_extrema.rs", AK+"descriptors.rs"], [("Akaze::extract, extract_from_gray_float_image", AK+"lib.rs"), ("rayon feature", AK+"image.rs, "+AK+"descriptors.rs")],
  "The photographs bind the shim build to the original: it gives the very numbers the crate's own test pins.")

SF = "cv-sfm/src/"
p("R01", "Reconstruction keeps frames, views and landmarks consistent",
  "After any sequence of adding, removing, splitting, merging, joining and filtering, every feature of every view belongs to exactly one landmark, every observation of a landmark names an existing view and feature, and every frame knows its view or has none. Each operation changes only what it is meant to: observations are joined, split or dropped as asked and no others, poses stay the true ones, constraints name views that exist, and what is removed leaves nothing behind. A landmark, two of them together or one without a view count as robust exactly if they have enough and spread observations, and are then triangulated at the point they see.",
  ["histories"], "every sequence of operations (new reconstruction with every pattern of matches, new view, remove view, split, merge and deduplicate landmarks, drop or join reconstructions, filter observations and landmarks, constrain) up to a depth, with one and with two reconstructions",
  "There are no tests of the data store; dangling and doubly owned observations only appear after several operations.",
  [SF+"lib.rs"], [("VSlamData: add_reconstruction, add_view, remove_view, split_observation, merge_landmarks, remove_reconstruction", SF+"lib.rs"), ("VSlam: incorporate_reconstruction, filter_*, regenerate_*", SF+"lib.rs")],
  "Breadth-first search; a state is the partition of the observations it stands for, with the order of its views, and each transition replays the whole path on the real store.")
p("R02", "Exported point clouds contain exactly the map's points and cameras",
  "Exporting a reconstruction writes a well-formed point cloud with every robust landmark once, at its position and in the colour of one of its observations, and every camera once, at its centre, turned as it is and sized by the distance of its points, with or without faces. Whatever the coordinates, the file reads back to the same numbers.",
  ["inputs"], "every point list up to three points and camera list up to three cameras of the alphabets, and every reconstruction of up to six views and three points with every pattern of matches and every demand on observations",
  "There are no tests of the export.",
  [SF+"export.rs", SF+"lib.rs"], [("export, camera faces", SF+"export.rs"), ("export_reconstruction", SF+"lib.rs")],
  "The file is read back by a parser of its own and compared with the model; the size of a camera that sees no point is not specified.")
p("R03", "Constraint graphs move the cameras of a map to their true places",
  "Relaxing a reconstruction moves every camera of a constraint graph by the mean step the constraints ask for, keeps true poses, and converges to the true shape whenever the graph connects the cameras; removed or coincident cameras and views without enough constraints never break it. Constraints are made of the view triples with enough common robust points, have the true relative poses, and the selected ones cover the views best first within the limit. Normalizing puts the first camera at the origin at unit mean point distance without changing the shape.",
  ["inputs", "histories"], "every set of constraints over three to five cameras with every order of their views, disturbed poses, wrong constraints, rates and iteration counts; all selections by every order of their landmark counts; every group of coincident cameras",
  "There are no tests of the constraint graph; its cases depend on which triples of views are constrained.",
  [SF+"lib.rs", SF+"settings.rs"], [("optimize_reconstruction, apply_constraints, generate_view_constraints, optimize_three_view, normalize_reconstruction", SF+"lib.rs")],
  "Each relaxation is compared with a reference transition function evaluated independently.")
p("R04", "Frames match the features they share and recall the frames alike",
  "Matching two frames pairs exactly the features that are mutually nearest by the required margin, symmetric and independent of order. Adding a frame with its picture keeps the limit of strongest features in order, with calibrated bearings and interpolated colours; interpolation reproduces the colour at pixels and the cubic in between. Searching for similar frames returns recent frames of the same feed and look-alikes, each once and sorted into its reconstruction. Settings survive being stored.",
  ["inputs", "histories"], "every pair of lists of up to four descriptors at five distances and five margins; every assignment of five frames to feeds, order and views; every pixel and sample position; every setting",
  "There are no tests of matching or recall.",
  [SF+"lib.rs", SF+"bicubic.rs", SF+"bow.rs", SF+"settings.rs"], [("match_pair, symmetric_matching, hamming distance", SF+"lib.rs"), ("find_visually_similar_and_recent_frames, kps_descriptors", SF+"lib.rs"), ("interpolate_bicubic", SF+"bicubic.rs"), ("codewords", SF+"codewords.rs")],
  "How many recent frames are looked at when there are fewer than asked for is left open.")
p("R05", "Frames arriving in any order are reconstructed truly and completely",
  "As frames arrive, no reconstruction is made of fewer than three frames; frames that share enough well spread points are found and reconstructed as soon as three are there, whatever their order, and frames without spread points are not. Every reconstruction has the cameras at their true poses up to one similarity and joins only observations of the same point. Two reconstructions that share a frame and points are merged into one at one scale, with the shared frame's observations joined; without common points they are not merged. Two landmarks of one point are joined by a frame that sees it unless one view sees both, and frames that were left over are taken in once they can be. Registration always ends.",
  ["histories"], "every order of arrival of four (five) cameras with every number of features tried first; every assignment of wide and narrow points or of overlapping parts to four frames; two groups of cameras with any sizes and any number of common points met by a last frame; every way in which the landmarks of four frames fall apart before a fifth arrives; every order of frames with too little in common and one that sees everything",
  "There are no tests of the pipeline; which frames initialise, join or merge depends on the order of arrival.",
  [SF+"lib.rs"], [("try_init, init_reconstruction, try_localize, incorporate_frame, register_frame, try_merge_reconstructions", SF+"lib.rs")],
  "The consensus given to the pipeline tries 60 samples in a fixed order and keeps the best, so a run is determined by the order of arrival; after each arrival the map is compared with the known scene.")

NA = []
def na(id, title, statement, over, text, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=None, obs=[]))
    NA.append(dict(property=id, reason=reason))

exec(open(os.path.join(ROOT, "tools", "na.py")).read())

TECH = {
 "C02": "explicit-state breadth-first search over operation sequences of the real pose types, plus bounded-exhaustive enumeration, against a reference model",
 "G06": "explicit-state breadth-first search over option-setting sequences, plus bounded-exhaustive enumeration against an independent reference model",
 "O01": "bounded-exhaustive enumeration of optimizer runs with every iteration checked against a reference transition function",
 "O02": "bounded-exhaustive enumeration of optimizer runs with every iteration checked against a reference transition function",
 "R01": "explicit-state breadth-first search over operation sequences of the real data store against a reference model",
 "R03": "bounded-exhaustive enumeration of constraint graphs with every relaxation step checked against a reference transition function",
 "R05": "bounded-exhaustive enumeration of arrival histories on the real pipeline, the map checked after every arrival",
 "K02": "bounded-exhaustive enumeration with every level of the scale space checked against a reference transition function",
 "K05": "stateless exploration of all schedules of the parallel build up to a deviation bound, plus bounded-exhaustive enumeration of pictures",
}
DEF = "bounded-exhaustive state-space enumeration of the real code against an independent reference model"
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps({
            "id": q["id"], "title": q["title"], "statement": q["statement"],
            "quantifier": {"over": q["over"], "text": q["text"]},
            "why_tests_cant": q["why"],
            "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]], "hook_needed": None},
        }) + "\n")
nas = {x["property"] for x in NA}
checks = [{
    "property": q["id"], "quick_cmd": f"bash check.sh {q['id']} quick", "thorough_cmd": f"bash check.sh {q['id']} thorough",
    "technique": TECH.get(q["id"], DEF), "level": "model_checking", "level_note": q["note"],
} for q in P if q["id"] not in nas]
json.dump({"version": 1, "setup_cmd": "bash check.sh build", "checks": checks, "not_applicable": NA,
  "notes": "No hooks in /repo: the checks drive the crates built from /repo's working tree; akaze and cv-sfm, whose dependencies are not available, are compiled from their sources in /repo with stand-ins for those dependencies. See DESIGN.md."},
  open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)

# The list of properties in DESIGN.md.
path = os.path.join(ROOT, "DESIGN.md")
d = open(path).read()
a = d.index("## Properties and how each is decided\n"); b = d.index("## Not applicable\n")
items = "".join(f"* **{q['id']} {q['title']}.** Enumerated: {q['text']}. {q['note']} {q['why']}\n" for q in P if q["id"] not in nas)
tail = "".join(f"* **{x['property']}**: {x['reason']}.\n" for x in NA) or "Nothing: every property listed is decided by model checking.\n"
open(path, "w").write(d[:a] + "## Properties and how each is decided\n\n" + items + "\n## Not applicable\n\n" + tail)
