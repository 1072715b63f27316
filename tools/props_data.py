TECH = 'contracts on the real functions; VCs generated from the LLVM IR of the current source, discharged by polynomial normal forms + z3/cvc5'
NOTE = ('Every obligation generated from the current source is discharged for all real inputs of the stated domain. Assumes real '
        'arithmetic for doubles, trusted contracts for libm/boost/C++ runtime, and the VC generator itself; see evidence.')


def P(id, title, statement, over, qtext, why, files, mech, note=NOTE, **kw):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]), note=note, **kw)


PROPS = [
 P('P01', 'Rotations act, compose and invert as rotations',
   'Applying a unit rotation to a vector gives the mathematically rotated vector and keeps its length; the product of two rotations applies the right one first and is again a unit rotation; the inverse undoes the rotation. Normalisation keeps the direction and yields unit norm, and choosing between the two sign representations never changes the rotation.',
   ['inputs'], 'all unit rotations and all vectors',
   'Existing tests exercise rotations only indirectly at random points; no test relates product, inverse and action for all inputs.',
   ['src/utMath/Quaternion.h', 'src/utMath/Quaternion.cpp'],
   [('vector rotation formula', 'Quaternion::operator*'), ('conjugate inverse', 'Quaternion::operator~, invert'), ('normalisation', 'Quaternion::normalize')]),
 P('P02', 'Rotation representations convert into each other without changing the rotation',
   'Converting a rotation between its quaternion, matrix, axis-angle, rotation-vector and Euler-angle forms always describes the same rotation, including half turns, the identity and the poles of the Euler angles, and numbers lost to rounding stay bounded.',
   ['inputs'], 'all unit rotations, all non-zero axes, all angles',
   'Tests sample a few random rotations with loose tolerances; branch boundaries (half turn, poles, near-identity) are never reached.',
   ['src/utMath/Quaternion.h', 'src/utMath/Quaternion.cpp', 'src/utMath/Util/RotationCast.h'],
   [('case split on the trace', 'Quaternion(Matrix)'), ('logarithm and exponential', 'toLogarithm, fromLogarithm'), ('Euler sequences', 'getEulerAngles')]),
 P('P03', 'Rigid poses form a group acting on points',
   'A pose maps a point by rotating then translating; composing two poses acts like applying them one after the other, inverting a pose undoes it from both sides, and conversion to and from vectors and matrices preserves the pose. Scaling a pose changes only its translation.',
   ['inputs'], 'all unit rotations, translations and points',
   'No unit test covers pose algebra directly; estimator tests would absorb small or input-dependent errors in their tolerances.',
   ['src/utMath/Pose.h', 'src/utMath/Pose.cpp', 'src/utMath/Matrix.h'],
   [('composition', 'Pose::operator*'), ('inversion', 'Pose::operator~'), ('vector order', 'Pose::toVector, fromVector')]),
 P('P04', 'Pose uncertainty is propagated exactly to first order',
   'When poses with covariance are inverted, composed, applied to points (exact or with covariance) or interpolated, the covariance of the result is J C J^T for the true derivative J of that operation under the documented small-error model, and the mean is the exact pose operation; composing with an exact pose and composing with a pose of zero covariance agree.',
   ['inputs'], 'all unit rotations, translations and symmetric 6x6 covariances',
   'The only test compares one random pose against a sampled covariance with a loose threshold; sign and order errors in single blocks survive it.',
   ['src/utMath/ErrorPose.h', 'src/utMath/ErrorPose.cpp', 'src/utMath/ErrorVector.h'],
   [('inversion', 'ErrorPose::operator~'), ('composition', 'operator*(ErrorPose, ErrorPose), operator*(ErrorPose, Pose), operator*(Pose, ErrorPose)'),
    ('point mapping', 'operator*(ErrorPose, Vector), operator*(Pose, ErrorVector)')]),
 P('P05', 'Additive and multiplicative pose errors convert consistently',
   'Converting a pose covariance between the 7x7 additive quaternion form and the 6x6 multiplicative form uses the true derivative of the change of error coordinates in both directions, converting there and back returns the 6x6 covariance unchanged, and the reported RMS position and orientation errors are those of the covariance.',
   ['inputs'], 'all unit rotations, translations and symmetric covariances',
   'No unit test checks the two directions against each other for general rotations.',
   ['src/utMath/ErrorPose.cpp', 'src/utMath/ErrorPose.h'],
   [('additive to multiplicative', 'ErrorPose::fromAdditiveErrorVector'), ('multiplicative to additive', 'ErrorPose::toAdditiveErrorVector')]),
 P('P06', 'Interpolation follows the shortest arc and hits its end points',
   'Interpolating two rotations always yields a unit rotation on the shorter arc between them at constant angular speed, reaching exactly the first rotation at 0 and the second at 1; positions interpolate linearly.',
   ['inputs'], 'all pairs of unit rotations (also of opposite sign), all parameters between 0 and 1',
   'Interpolation is not tested at all in the stable suite; sign choice and near-identical inputs need a case analysis.',
   ['src/utMath/Quaternion.cpp', 'src/utMath/Pose.cpp', 'src/utMath/Vector.h'],
   [('sign flip and weights', 'slerp'), ('pose interpolation', 'linearInterpolate')]),
 P('P07', 'Optimiser and filter derivatives match the functions they belong to',
   'Every measurement and projection function that offers an analytic derivative (rotation of points, projection of points by poses and cameras, lens distortion, dehomogenisation, normalisation, rigid alignment, tool tip and hand-eye functions) returns exactly the function value its name promises and exactly the derivative of that value by each parameter.',
   ['inputs'], 'all parameter vectors, points, cameras and distortion coefficients where the function is differentiable',
   'Optimisers tolerate wrong derivatives (they only converge slower or elsewhere), so end-to-end tests with tolerances cannot see them.',
   ['src/utAlgorithm/Function', 'src/utMath/Optimization/Function', 'src/utAlgorithm/PoseEstimation3D3D/Optimization.h', 'src/utAlgorithm/ToolTip/Optimization.h', 'src/utAlgorithm/CameraLens'],
   [('value and jacobian of each function', 'evaluateWithJacobian, jacobian'), ('chain rule over cameras and points', 'MultipleCameraProjection, MultiplePointProjection'), ('rotation derivative', 'QuaternionRotation, QuaternionRotationError, LieRotation')]),
 P('P08', 'Motion models move the state as physics says, for every time step',
   'Advancing a tracked state by a time step turns the rotation by the integrated velocity (always a unit rotation), moves positions by their Taylor polynomial, and the accompanying derivative is that of this motion; a fresh filter (rotation or pose filter, outside-in or inside-out) reports its first measurement unchanged, stamps predictions with the requested time, and predicts forwards and backwards in time alike; whole histories of pose, rotation and velocity measurements give the state and covariance of the Kalman filter of that motion.',
   ['inputs', 'histories'], 'all states, velocities and positive, zero or negative time steps; all 64-bit time stamps',
   'The tracking tests only run one smooth trajectory forward; negative time steps, single derivatives and non-unit drift are within their tolerances.',
   ['src/utTracking', 'src/utTracking/Function', 'src/utMath/RotationVelocity.h'],
   [('velocity integration', 'RotationVelocity::integrate, RotationVelocityIntegration'), ('state transition', 'QuaternionTimeUpdate, LinearPoseMotionModel, PoseTimeUpdate'), ('filter time', 'RotationOnlyKF, PoseKalmanFilter: timeUpdate, predict'), ('measurement updates', 'PoseKalmanFilter::add*Measurement')]),
 P('P09', 'Kalman updates and covariance propagation are exact first-order filters',
   'For any differentiable measurement or transition function, propagating a state through it gives the function value and J C J^T (also for partial state ranges, keeping all cross-covariances), a Kalman measurement update moves the state by gain times innovation and shrinks the covariance by K S K^T with the optimal gain, and backward propagation returns (J^T C^-1 J)^-1.',
   ['inputs'], 'all states, covariances, measurements, function values and derivatives (sizes up to 5)',
   'Filter tests look only at convergence; a mis-indexed cross-covariance or a wrong gain block still converges on their data.',
   ['src/utMath/Stochastic/Kalman.h', 'src/utMath/Stochastic/CovarianceTransform.h', 'src/utMath/Stochastic/BackwardPropagation.h'],
   [('gain', 'kalmanMeasurementUpdate, kalmanMeasurementUpdateIdentity'), ('range propagation', 'transformRangeInternalWithCovariance'), ('inverse information', 'backwardPropagation*')]),
 P('P10', 'Points are transformed, projected and normalised as their matrices say',
   'Transforming or projecting a point by a 2x3, 3x3, 3x4 or 4x4 matrix multiplies the matrix with the homogeneous point (2D points under four columns lie in the plane z=0) and projection divides by the last coordinate; every input point yields exactly one result. Normalisation uses the mean and the standard deviation of the points, and the inverse normalisation matrix undoes the forward one.',
   ['inputs'], 'all matrices, points and point sets (checked on sets of two and three points)',
   'The point tests compare a few random products of selected sizes; single matrix elements of the other overloads are never looked at.',
   ['src/utMath/Geometry/PointTransformation.h', 'src/utMath/Geometry/PointProjection.h', 'src/utMath/Geometry/PointNormalization.h', 'src/utMath/Stochastic/identity_iterator.h'],
   [('unrolled products', 'TransformPoint, ProjectPoint'), ('mean and deviation', 'estimateNormalizationParameters'), ('matrix and its inverse', 'generateNormalizationMatrix')]),
 P('P11', 'Conics and quadrics describe the curves and outlines they came from',
   'A conic vector, its matrix and its quadratic form agree; inverse, determinant, center, axes, angle, eccentricity, area, limits and intersections are those of the curve, also for circles and diagonal ellipses; scaled, moved and mirrored conics contain exactly the scaled, moved and mirrored points; the classification follows the discriminant; the outline of a projected quadric or ellipsoid is the point conic of the projected dual quadric. A conic without center is reported by an exception.',
   ['inputs'], 'all conics (real ellipses where axes, angle and limits are asked), points, quadrics and projection matrices',
   'The conic test only checks that the functors compile and that a vector survives the matrix round trip.',
   ['src/utMath/Geometry/Conic.h', 'src/utMath/Geometry/QuadricFunctors.h'],
   [('adjugate formulas', 'ConicInverse, ProjectQuadric, ProjectEllipsoid'), ('principal axes', 'ConicAngle, ConicSemiAxes'), ('coordinate changes', 'TranslateConic, ScaleConicUnsafe, FlipConicHorizontal')]),

 P('P12', 'Lens distortion, its inverse and camera intrinsics follow the camera model',
   'Distorting an image point gives the image of the distorted viewing direction (radial rational and tangential model), for single points, lists, in place and with both intrinsics sign conventions; undistorting never ends farther from the solution than the distorted point itself; intrinsics keep all parameters, size and type they were built from, and the opening angles are those of the pinhole model.',
   ['inputs'], 'all intrinsics with K22 = +-1 and non-zero focal lengths, all distortion parameters and points where the model is defined',
   'No test distorts a point or builds intrinsics with 3, 4 or 6 radial parameters.',
   ['src/utAlgorithm/CameraLens/*', 'src/utAlgorithm/LensDistortion.cpp', 'src/utMath/CameraIntrinsics.h'],
   [('distortion formula', 'CameraLens::distort, lensDistort, projectWithDistortion'), ('inverse by optimisation', 'undistort, lensUnDistort'), ('parameter bookkeeping', 'CameraIntrinsics constructors')]),
 P('P13', 'Vector and matrix algebra compute what their names say',
   'Products, norms, distances, normalisations, cross products, determinants, inverses and (for full rank) pseudo-inverses of vectors and matrices follow their textbook definitions for every storage kind; a degenerate matrix is reported, not inverted; constructors, casts, equality and the lexicographic order keep every element in its place; handedness conversions are their own inverse.',
   ['inputs'], 'all real vectors and matrices of the sizes the library uses (2 to 6)',
   'The algebra tests compare random products within tolerances for a few sizes only; single elements, other storages and the singular branches are never looked at.',
   ['src/utMath/Blas1.h', 'src/utMath/Blas2.h', 'src/utMath/Blas3.h', 'src/utMath/VectorFunctions.h', 'src/utMath/MatrixOperations.h', 'src/utMath/Functors', 'src/utMath/Vector.h', 'src/utMath/Matrix.h'],
   [('products and norms', 'inner_product, outer_product, product, norm'), ('inverse and determinant', 'invert_matrix, determinant, pseudoInvert_matrix'), ('order and equality', 'Vector::operator<, operator==')]),
 P('P14', 'Averages, variances, correlations and densities are the statistics they name',
   'Averaging measurements one by one gives the mean of all of them (rotations as the normalised mean of sign-aligned quaternions) and, where an error is asked for, their covariance in the error form of the result type; Gaussian estimates return the weighted mean and covariance of exactly the selected values and fail on none; correlation, Mahalanobis distance, normal density and mean log likelihood follow their definitions.',
   ['inputs', 'histories'], 'all measurements of any number for the averages (one step from an arbitrary state); sets of two to four values for the others; all positive definite covariances',
   'The statistics tests accept random means within wide tolerances; cross terms, the sign alignment and the error rotation are never compared.',
   ['src/utMath/Stochastic/Average.h', 'src/utMath/Stochastic/Gaussian.h', 'src/utMath/Stochastic/Correlation.h', 'src/utMath/Stochastic/MahalanobisDistance.h', 'src/utAlgorithm/Correlation.cpp'],
   [('running sums', 'Average::operator(), getAverage'), ('weighted moments', 'estimate_gaussian'), ('densities', 'mahalanobis distance, gaussian density')]),
 P('P15', 'An optimiser never ends worse than it started',
   'Every Levenberg-Marquardt iteration solves the damped (weighted) normal equations for its step, keeps the step exactly when the residual gets smaller (never when it is not a number), lowers the damping after a kept step and raises it after a dropped one; the returned residual is that of the returned parameters and is never larger than that of the starting point; the search ends after the allowed iterations or when the relative change falls below the precision; discrete derivatives are difference quotients.',
   ['inputs', 'histories'], 'all starting points, function values and derivatives (also not-a-number residuals), all damping values; one iteration from an arbitrary state covers every iteration',
   'Optimiser tests only look at converged results of well-behaved problems, where wrong steps merely cost iterations.',
   ['src/utMath/Optimization/LevenbergMarquardt.h', 'src/utMath/Optimization/Optimization.h', 'src/utMath/Optimization/DiscreteJacobianApproximation.h'],
   [('step and acceptance', 'levenbergMarquardt, weightedLevenbergMarquardt'), ('end of the search', 'OptTerminate'), ('difference quotient', 'DiscreteJacobianApproximation')]),
 P('P16', 'RANSAC estimates from exactly the data agreeing with a drawn hypothesis',
   'Every hypothesis is estimated from the asked number of input data (drawn without repetition in the iterator forms); a hypothesis counts only if its estimate succeeded and at least the required number of data lie within the threshold; the final result is estimated from exactly those data, their number is returned and (where asked) their positions are reported; without such a hypothesis zero is returned and the result stays untouched; at most the allowed number of hypotheses is tried. Parameters computed from outlier and success probability reach that success probability.',
   ['inputs', 'histories'], 'every sequence of random numbers, every distance of every datum from every hypothesis, every pattern of failing estimates (few data and runs)',
   'RANSAC tests use friendly random data, where a hypothesis with wrong data or a lost inlier still passes within tolerance.',
   ['src/utMath/Optimization/Ransac.h'],
   [('drawing', 'IndexGenerator, random_shuffle'), ('agreement', 'ransac: threshold loop'), ('final estimate', 'ransac: refit and return')]),
 P('P17', 'Assignments are cheapest and clusters are nearest',
   'The Munkres solver pairs rows and columns one to one (rectangular cost matrices included: as many pairs as the smaller side) with the smallest possible total cost; k-means assigns every value to its nearest mean, each mean is the mean of its values, starts from distinct input values and never produces NaN; an expectation-maximisation step never lowers the likelihood and keeps mixture weights summing to one.',
   ['inputs'], 'all cost matrices up to 6x6, all generated point sets up to a few dozen values',
   'The tests only print results or look at one fixed matrix; optimality over all permutations and empty clusters are never checked.',
   ['src/utMath/Graph/Munkres.h', 'src/utMath/Stochastic/k_means.h', 'src/utMath/Stochastic/expectation_maximization.h'],
   [('augmenting path', 'Munkres::solve'), ('assignment and mean update', 'k_means'), ('responsibilities', 'expectation_maximization')],
   level='other', note='Bounded stand-in, not a proof: contracts evaluated on the real compiled code for generated inputs against independent oracles (exhaustive minimum, nearest mean, likelihood).'),
 P('P18', 'What is serialised is read back unchanged',
   'Every math type and measurement (scalars, vectors, matrices of any shape, rotations, poses, errors, velocities, camera intrinsics, lists, time stamps) comes back from an archive or msgpack exactly as it was written, element by element; msgpack data of another shape than the type writes are refused with an exception; calibration files return what was stored and missing or malformed files are reported.',
   ['inputs'], 'all values of all serialisable types; all array lengths for refused data',
   'The serialisation tests send one square matrix, one pose and one vector through each archive; non-square matrices, errors, intrinsics and object trees are never sent.',
   ['src/utSerialization', 'src/utMath/*.h (serialize)', 'src/utMeasurement/Measurement.h', 'src/utUtil/CalibFile.h', 'src/utUtil/SimpleString*Archive.h'],
   [('order of elements', 'serialize members'), ('msgpack conversion', 'pack, convert, object_with_zone'), ('files', 'readCalibFile, writeCalibFile')],
   note='Assumed: the archive and the msgpack packer hand back the sequence of primitives they were given (both are exercised end to end by the sampled units).'),
 P('P19', 'Time stamps, clocks and measurements keep their time',
   'Time stamps count nanoseconds of the system clock and are printed as that time; sleeping asks the system for exactly the wanted time; block timers add up the time spent in them; a measurement keeps its time stamp and its own copy of the value, is invalid exactly at time zero, and clones do not share. Synchronising a native clock returns the first local time unchanged and from then on is the optimal two-state filter of time and rate: outliers change nothing but the budget, the estimate always lies within one unit of the filter value.',
   ['inputs', 'histories'], 'all clock values, waiting times, time stamps and filter states (one step from an arbitrary state); generated histories with jitter and outliers',
   'Nothing in the test suite looks at clocks, time stamps or the synchronisation filter.',
   ['src/utMeasurement/Timestamp.cpp', 'src/utMeasurement/TimestampSync.cpp', 'src/utMeasurement/TimestampSync.h', 'src/utMeasurement/TimestampSyncLS.h', 'src/utMeasurement/Measurement.h', 'src/utUtil/OS.cpp', 'src/utUtil/BlockTimer.h'],
   [('clock reading', 'now, getHighPerformanceCounter, sleep'), ('synchronisation filter', 'TimestampSync::convertNativeToLocal'), ('ownership', 'Measurement::clone, constructors')]),
 P('P20', 'Rigid alignment and tool tip calibration reproduce the true motion',
   'The absolute orientation of corresponding 3D points (with or without errors, as single call, in RANSAC form or from a list of measurements) is the rotation and translation minimising the summed squared distances: exact correspondences give back the motion they were made with, the returned rotation has unit length, too few or unequal numbers of points are refused. Tool tip calibration returns the two points that the poses map onto each other with the smallest squared error and reports its residual.',
   ['inputs'], 'all motions, all point sets of three and four points (proof through eigenvector and least-squares certificates), generated sets of up to some dozen points',
   'The alignment tests use random points with wide tolerances and never check optimality, the unit length or refused input; tool tip calibration is tested with one pose set.',
   ['src/utAlgorithm/PoseEstimation3D3D', 'src/utAlgorithm/ToolTip'],
   [('correlation matrix', 'estimateRotation_3D3D, AbsoluteOrientation'), ('centroids', 'estimateTranslation'), ('linear system', 'tipCalibration')],
   note='LAPACK eigenvector and least-squares routines are assumed to solve the problem they are handed; what they are handed is an obligation.'),
 P('P21', 'Homographies, projections and views reconstruct exact geometry',
   'From exact correspondences the homography, the 3x4 projection matrix and the fundamental matrix come out equal to the true ones up to scale (projection: unit third row, positive depth of the first point), whatever the normalisation of the points; the homography of a square hits its four corners; decomposing a projection gives K (upper triangular, positive first element, last element -1), a right-handed rotation and a translation whose product is that projection for any scale and sign; OpenGL and off-axis matrices map the view volume to the unit cube; the fundamental matrix of two camera poses annihilates the images of every world point, the relative pose and the 3D points are recovered from exact images; too few, unequal or invalid inputs are refused.',
   ['inputs'], 'all matrices, points, normalisations, scales and signs for the stated numbers of points (proof through null vector, RQ and inverse certificates); generated views for the pose from a fundamental matrix, refinement, matching and single precision',
   'The tests use random projections of unit scale, a handful of points and wide tolerances; scaled matrices, both signs, the refused inputs and the epipolar relation for every point are never tested.',
   ['src/utAlgorithm/Homography.cpp', 'src/utAlgorithm/Projection.cpp', 'src/utAlgorithm/FundamentalMatrix.cpp', 'src/utAlgorithm/3DPointReconstruction.cpp'],
   [('linear equations of the correspondences', 'homographyDLT, projectionDLT, getFundamentalMatrix, get3DPosition'), ('RQ decomposition and sign choices', 'decomposeProjection'), ('view volume', 'projectionMatrixToOpenGL, offAxisProjectionMatrix'), ('epipolar geometry', 'fundamentalMatrixFromPoses, poseFromFundamentalMatrix, pointToPointDist, reconstruct3DPoints')],
   note='LAPACK SVD and RQ routines are assumed to solve the problem they are handed; what they are handed is an obligation.'),
 P('P22', 'Camera pose from known 3D points reproduces the true pose',
   'From exact images of four or more points in general position - in a plane z = c, in any other plane, or (projection method) in space - computePose returns the camera pose they were made with, with a unit rotation, a vanishing residual and, in general, the residual and the covariance that belong to the returned pose (root mean square image error; image error times the inverse of J^T J in the error model of ErrorPose, also for several cameras). The pose of a homography of any scale and sign is the one with the plane in front of the camera. Refinement from a nearby pose finds the true one and never fails on an exact one; the iterative object-space estimation reports the error of the pose it returns and leaves the pose alone when it does not converge. Fewer than four points are refused.',
   ['inputs'], 'all poses, camera matrices, planes, points, scales and signs for four and five planar, four tilted and six spatial points without refinement (proof over the contracts of homography, projection, determinant and matrix inverse); generated cameras, points and noise for refinement, covariance, object-space iteration and single precision',
   'The tests start from planes z = 0 with refinement switched on and accept wide errors; an offset plane without refinement, sign and scale of the homography, reported residuals and covariances are not tested.',
   ['src/utAlgorithm/PoseEstimation2D3D', 'src/utMath/Optimization/LevenbergMarquardt.h'],
   [('planar and spatial initialisation', 'computePose, poseFromHomography'), ('refinement', 'optimizePose, ProjectivePoseNormalize'), ('error propagation', 'singleCameraPoseError, multipleCameraPoseError'), ('object-space iteration', 'estimatePose6D_2D3D')],
   note='The contracts of homographyDLT, projectionDLT, determinant, invert_matrix and Quaternion(matrix) used here are proved in P21, P13 and P02; LAPACK is assumed.'),
 P('P23', 'Hand-eye calibration recovers the true transformation',
   'If every pair of poses satisfies hand_i X eye_i = W, the linear method (all pairs or neighbouring ones, poses or matrices, double or single precision) and the dual quaternion method return X, and the accumulating interface that selects motions by clustering returns its inverse, whatever signs the quaternions carry, also for vanishing translations, an identity X or rotations about coordinate axes; relative poses, their dual quaternion, rotation vector and axis-angle forms describe the same motion, selected motions are pairs of the input nearest to their cluster centre; too few or unequal numbers of poses give the identity, an exception or a reported failure. The recursive rotation filters are the Kalman filters of a x = x b, independent of the sign of either quaternion.',
   ['inputs', 'histories'], 'all poses, X and W for three poses (linear method), two or three motions (dual quaternions), all conversions, filter steps from any state; generated sets of five to seven poses and histories of eight measurements. Relative rotations and X that are half turns are excluded (the linear method is singular there)',
   'The tests calibrate from random well conditioned sets with wide tolerances, with quaternions of consistent sign; three or four poses, special geometries, repeated calls, sign changes and large rotations in the filters are never tested.',
   ['src/utAlgorithm/PoseEstimation6D6D', 'src/utAlgorithm/OnlineRotHec.cpp', 'src/utAlgorithm/RotationHecKalmanFilter.cpp', 'src/utAlgorithm/Function/RotHecFunction.h'],
   [('linear method', 'performHandEyeCalibration'), ('dual quaternion method', 'estimatePose6D_6D6D'), ('selection', 'DataSelection, select_6DPoses, HandEyeCalibration::estimatePose6D'), ('filters', 'OnlineRotHec::addMeasurement, RotationHecKalmanFilter::addMeasurement, RotHecMeasurement')],
   note='LAPACK least squares and SVD are assumed to solve the problem they are handed; that the true transformation solves it is an obligation, that it is the only solution is the precondition of two non-parallel rotation axes.'),
 P('P24', 'Camera networks: bundle adjustment and multi-camera pose refinement',
   'Bundle adjustment hands the optimiser the given poses, points and observations and returns poses (unit quaternions) and points that project exactly like the optimised parameters, so that the reprojection error of what it returns is never worse than before, and exact observations are reproduced when it is repeated; its Jacobian and that of the multi-camera objective, and of every composition of the function framework (addition, subtraction, linear maps, dehomogenisation, norms, rotations, fixed and free parameters), are the derivatives of the values computed. The pose of a target seen by several cameras starts from the given pose or from the camera with most observations expressed in world coordinates, uses exactly the visible observations with the intrinsics and pose of their camera, recovers the true pose from exact data, also per local bundle, and reports failure when a camera has too few observations; lists of unequal length are rejected.',
   ['inputs'], 'all poses, points, observations and results of the optimiser for up to two cameras and three or four points with several visibilities; generated networks of up to four cameras and twelve points',
   'The existing test runs one bundle adjustment and checks nothing of the result; multi-camera estimation and the function framework have no test at all.',
   ['src/utAlgorithm/BundleAdjustment.cpp', 'src/utAlgorithm/MultipleCameraPoseOptimization.cpp', 'src/utAlgorithm/MultipleCameraPoseOptimization.h', 'src/utMath/Optimization/NewFunction'],
   [('bundle adjustment', 'simpleBundleAdjustment, MinimizeReprojectionErrorAllPoints'), ('multi-camera pose', 'multipleCameraPoseEstimation, multipleCameraPoseEstimationWithLocalBundles, checkConsistency, ObjectiveFunction'), ('composition', 'Binder, Parameter, FixedParameterRef, FixedParameterCopy, Addition, Subtraction, LinearTransformation, Dehomogenization, LieRotation, VectorNorm')],
   note='levenbergMarquardt, computePose, toLogarithm and fromLogarithm are represented by their contracts (P15, P22, P02) at the call sites; convergence of the optimiser is sampled.'),
]

NA = []
