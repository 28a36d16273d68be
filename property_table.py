EE = 'eigen_ext/include/eigen_ext/'

prop('C01', 'Pose, twist and covariance frame changes apply the right adjoint algebra',
     'Changing the reference frame of a transform, of a relative transform, of a covariance or of a twist yields exactly the result of conjugating by the given rigid-body transform: T*X*T^-1 for relative transforms, '
     'the [rotation, translation] adjoint for twists and A*C*A^T for covariances, with the rotation-only variants agreeing with the full ones when the translation is zero. Relative transforms, and angular velocities '
     'or accelerations moved between points of a rigid body, follow the rigid-body kinematic equations with their documented sign and order of operands.',
     ['inputs'], 'every rigid transform, twist, covariance, rotation and lever arm, in single and double precision',
     'The repository tests sample a few rotations; sign, order and block-placement errors vanish on symmetric or commuting samples.',
     [EE + 'geometry.hpp'],
     [('transform_adjoint, rotate_covariance, change_*_reference_frame, relative_transform', EE + 'geometry.hpp'), ('change_relative_transform_frame, change_twist_reference_frame', EE + 'geometry.hpp')])

prop('C02', 'Rigid transforms are assembled and decomposed without loss',
     'Building a transform from a translation and a rotation puts exactly that rotation and translation in it; the linear rates between two poses over dt, held constant for dt, carry the first pose to the second; and the '
     'precomputed components of a transform (matrix, rotation, translation, rotation vector, angle, sine and cosine) all describe the same transform, whether built from the matrix or from a rotation vector and a translation, '
     'including the zero rotation.',
     ['inputs'], 'every translation, rotation, rotation vector (zero included), pair of poses and time step',
     'Tests fix a handful of rotations; degenerate rotations and swapped rotation/translation parts are not among them.',
     [EE + 'geometry.hpp', EE + 'precomputed_transform_components.hpp'],
     [('to_transform, linear_rates', EE + 'geometry.hpp'), ('PrecomputedTransformComponents', EE + 'precomputed_transform_components.hpp')])

prop('C03', 'A covariance is accepted only when valid and its blocks swap losslessly',
     'A covariance is reported valid exactly when it is square, every entry is finite, it is symmetric to the given precision and it is positive definite. Reordering a covariance about a boundary swaps the two diagonal blocks '
     'and carries every cross-covariance entry to its transposed place, losing and inventing nothing, and boundaries outside the interior of the matrix, or a non-square matrix, are refused with an exception.',
     ['inputs'], 'every matrix of the sizes used, every entry, precision and boundary, fixed and dynamic size',
     'A covariance that is wrongly accepted or permuted corrupts the factor graph silently; tests cover one 6x6 permutation.',
     [EE + 'covariance.hpp', EE + 'matrix.hpp'],
     [('is_valid_covariance, reorder_covariance', EE + 'covariance.hpp'), ('is_symmetric, is_positive_definite', EE + 'matrix.hpp')])

prop('C04', 'Small matrix and coordinate helpers equal their mathematical definitions',
     'The skew-symmetric matrix of a vector acts as its cross product and converts back to the vector, and a matrix that is not skew symmetric is refused; interpolation of matrices is the affine combination; symmetry and '
     'positive definiteness tests report exactly those properties; normalising yields the unit vector in the same direction and refuses a zero vector; polar coordinates describe the same point as the cartesian ones.',
     ['inputs'], 'every vector, matrix, precision and interpolation factor, in single and double precision',
     'Definitions must hold for every value; the tests sample single values and skip several of these functions.',
     [EE + 'geometry.hpp', EE + 'matrix.hpp'],
     [('skew_symmetric, from_skew_symmetric, cartesian_to_polar, safe_normalise', EE + 'geometry.hpp'), ('linear_interpolate, is_symmetric, is_positive_definite, non_zero_diagonals', EE + 'matrix.hpp')])

S = 'serpent/src/front_end/stereo/'
SI = 'serpent/include/serpent/front_end/stereo/'

prop('C05', 'Stereo projection and back-projection follow the pinhole model exactly',
     'Projecting a point in front of a rectified stereo pair yields the pinhole coordinates (left column, right column, row) given by the focal lengths, principal '
     'point and baseline, and back-projecting stereo coordinates yields the point by similar triangles, so that each is the inverse of the other. A point on or behind the '
     'image plane and coordinates with zero disparity are refused with an exception, and no other input is refused.',
     ['inputs'], 'every point, stereo coordinate, intrinsic matrix and baseline, in single and double precision',
     'No test touches these functions; a test could only sample points, and a wrong coefficient or index is invisible on symmetric samples.',
     [SI + 'stereo_equations.hpp', SI + 'stereo_equations-inl.hpp'],
     [('stereo_backproject', SI + 'stereo_equations-inl.hpp'), ('stereo_project', SI + 'stereo_equations-inl.hpp')])

RC = 'serpent/include/serpent/front_end/lidar/registration_covariance'
prop('C06', 'ICP covariance models use the exact second derivatives of their residuals',
     'For every rotation, translation, pair of corresponding points and plane normal, the four ICP models (point-to-point and point-to-plane, linearised and nonlinear) yield exactly half the second derivative of the squared residual '
     'with respect to the pose (rotation vector, translation), and half the mixed second derivative with respect to the pose and the two points, each block in its place. Processing a correspondence yields these matrices for the '
     'coordinates of the source point and the coordinates (and normal) of the target point.',
     ['inputs'], 'every pose, pair of points and normal',
     'The derivatives are thousands of lines of generated expressions; the tests compare a few sampled entries of a few functions with stored numbers.',
     [RC + '-inl.hpp', RC + '.hpp'],
     [('compute_half_d2F_dx2, compute_half_d2F_dzdx, process_correspondence of the four ICP models', RC + '-inl.hpp')])

prop('C11', 'Window statistics and stereo matching costs equal their definitions',
     'For every pair of 8-bit images, window positions and window size, the window sum, mean and sum of squares and the five matching costs (absolute, squared, zero-mean, locally scaled, negative '
     'normalised cross-correlation) equal their textbook definitions over exactly the pixels of the windows, whether or not the reference statistic is supplied by the caller. '
     'A window counts as inside an image exactly when all its pixels are, and a cost on an image of another pixel type is refused with an exception.',
     ['inputs'], 'all images, window positions, window sizes and supplied statistics',
     'The existing tests match one keypoint in one image pair; they never compare a cost with its definition, and the sums there start from whatever was on the stack.',
     [S + 'window_functions.cpp', S + 'stereo_cost_functions.cpp'],
     [('window_sum, window_mean, window_sum_squares, window_within_image', S + 'window_functions.cpp'), ('matching cost functions', S + 'stereo_cost_functions.cpp')])

prop('C13', 'Match filters keep exactly the matches satisfying their criterion',
     'Each match filter returns, in their original order, exactly the matches that satisfy its criterion: descriptor distance at most the threshold; left column greater than right column with rows at most the threshold apart; '
     'positive disparity with stereo range within the minimum and maximum distance. The reported indices are the positions of the kept matches in the input of the latest call only, and changing a threshold, focal length or baseline '
     'on a filter makes it behave like one constructed with the new value.',
     ['inputs', 'histories'], 'all match lists, keypoints and parameters, and all orders of construction, parameter changes and earlier filter calls',
     'No test constructs a filter; boundary values, repeated calls and parameter changes form an unbounded space.',
     [S + 'match_filters.cpp', SI + 'match_filters.hpp'],
     [('DistanceMatchFilter, StereoMatchFilter, StereoDistanceFilter', S + 'match_filters.cpp')])

PT = 'pointcloud_tools/'
prop('C09', 'Transforming a cloud moves points, normals, unit vectors and covariances',
     'Transforming a cloud applies the full rigid transform to every point position and only its rotation to normals and unit vectors, and turns each point covariance C into R*C*R^T; every other field of a point follows the '
     'copy-all-fields choice. Header, size, organisation and sensor pose are carried over, non-finite points of a non-dense cloud are left untransformed, the number and order of points is preserved, and transforming in place gives the '
     'same result as transforming into another cloud. Transforms given as isometries or in double precision behave as the equal single precision matrix.',
     ['inputs'], 'every cloud (any size, dense or not, separate or in place), every transform and both copy choices',
     'No test transforms these point types; the quantification is over all clouds, finite or not, and aliasing.',
     [PT + 'include/pointcloud_tools/impl/pclpointcloud_transform.hpp', 'serpent/include/serpent/front_end/lidar/transform_pointcloud.hpp'],
     [('transform_pointcloud_with_normals_and_unit_vectors, transform_pointcloud_with_normals_and_covariances', PT + 'include/pointcloud_tools/impl/pclpointcloud_transform.hpp')])

prop('C10', 'Point types carry their pose, covariance and unit vector faithfully',
     'Every custom point type copies and default-initialises all of its fields; covariance entries set from a matrix read back as the same symmetric matrix and lie in the documented order; the outer product of the unit vector is u*u^T; '
     'and a pose given to an angle-axis point as isometry, translation and quaternion, rotation matrix or angle-axis reads back as the same position, angle, rotation matrix, quaternion and isometry, homogeneous coordinates included.',
     ['inputs'], 'every point, covariance, unit vector and pose, through every constructor and setter',
     'The point types have no tests; unset padding or swapped entries show only for asymmetric values and particular stack contents.',
     [PT + 'src/point_types.cpp', PT + 'include/pointcloud_tools/point_types.hpp'],
     [('PointUnit, PointNormalUnit, PointCovariance, PointNormalCovariance, PointAngleAxis', PT + 'src/point_types.cpp')])

prop('C14', 'Configuration names map one-to-one to methods, and unknown names are refused',
     'Every covariance estimation method, estimation model, point covariance method and sensor type is selected by exactly its documented name, the name of a value converts back to the same value, every other name or value is refused '
     'with an exception, and unit vectors are required exactly when an estimated (not CONSTANT) covariance is combined with a range-based point covariance.',
     ['inputs'], 'every string and every enumerator',
     'Tests could only try some names; that all others are refused is a statement about every string.',
     [RC + '.hpp', 'serpent/src/front_end/lidar/registration_covariance.cpp', S + 'sensor_point_types.cpp'],
     [('to_covariance_estimation_method, to_covariance_estimation_model, to_point_covariance_method, to_string, requires_unit_vectors', 'serpent/src/front_end/lidar/registration_covariance.cpp'),
      ('to_sensor_type', S + 'sensor_point_types.cpp')])

prop('C07', 'Registration covariances are assembled as the Censi and LLS formulas define',
     'For any registration, model derivatives and correspondences, the Censi covariances equal H^-1 (D S D^T) H^-1, where H sums the Hessian halves of all correspondences, D places the mixed derivative of correspondence i in '
     'columns 6i to 6i+5, and S is point_variance times the identity, block diagonal range_variance u u^T of the unit vectors of each source and target point, or, with a range bias, bias_variance u u^T over all points plus '
     'range_variance on the diagonal; the least-squares covariance equals point_variance H^-1. The derivatives are evaluated at the final transformation and at the source and target points the correspondences name, and the '
     'number of correspondences is reported.',
     ['inputs'], 'every registration result, point clouds, variances and model; for two correspondences',
     'Existing tests cover the model derivatives only; no test calls the covariance functions.',
     [RC + '-inl.hpp', RC + '.hpp'],
     [('censi_iid_covariance, censi_range_covariance, censi_range_bias_covariance, lls_iid_covariance', RC + '-inl.hpp')],
     note=NOTE + ' Assembly is analysed for two correspondences (the matrices have run-time sizes).')

prop('C08', 'Registration correspondences are the nearest neighbours within reach',
     'The correspondences of a completed registration are, in source order, one per registered source point whose nearest target neighbour, after applying the final transformation, lies within the maximum correspondence distance: '
     'naming the source point and the target point by their index in their clouds, with the distance between them. Reciprocal correspondences do the same from the target cloud with the inverse transformation, and are refused '
     'when the source search does not follow the registration indices.',
     ['inputs'], 'every pair of clouds, index subset, transformation, distance limit and search outcome',
     'Only the size of the result could be tested on sample clouds; subsets of indices were never used in a test.',
     [PT + 'include/pointcloud_tools/impl/registration_utilities.hpp'],
     [('compute_registration_correspondences', PT + 'include/pointcloud_tools/impl/registration_utilities.hpp')])

prop('C12', 'Keypoint matching finds the cheapest window on the same row',
     'A keypoint of one image is matched to the keypoint, or with scanning to the column, of the other image on the allowed side (left in the right image, right in the left image) and within the vertical threshold whose window '
     'has the smallest matching cost, the first one on ties; costs use the statistics of the window they compare. The bidirectional filter keeps a match only if matching back returns to the same place, the ratio filter only if the best cost is at most '
     'the ratio times the second best. A keypoint whose window leaves the image is reported unmatched with its outputs set, and even windows, out-of-range ratios, images of different sizes and unknown methods are refused.',
     ['inputs'], 'every image pair, keypoint list, window size, vertical threshold, filter, cost function and statistics',
     'The existing tests match one keypoint in one image pair without filters; ties, image borders and rejected matches are never reached.',
     [S + 'stereo_keypoint_matcher.cpp', SI + 'stereo_keypoint_matcher.hpp'],
     [('StereoKeypointMatcher::find_matches, find_match, compute_statistics', S + 'stereo_keypoint_matcher.cpp')])

ER = 'eigen_ros/src/'
prop('C15', 'Messages and internal types convert without loss or reordering mistakes',
     'Converting points, vectors, quaternions, poses, transforms, twists, odometry, inertial measurements, headers, covariances and arrays to a message and back returns the same values; each conversion fills exactly the fields it documents '
     'and leaves the others alone, whatever the destination held before. Pose and twist covariances are ordered translation first in messages and rotation first internally, matrices are row-major, and messages whose dimensions do not match '
     'the matrix, or covariances that are not square, are refused.',
     ['inputs'], 'every message and every value, with any previous content of the destination',
     'Tests convert a few instances into fresh objects; transposed or stale entries vanish on symmetric samples and empty destinations.',
     [ER + 'geometry_msgs.cpp', ER + 'nav_msgs.cpp', ER + 'sensor_msgs.cpp', ER + 'statistics_msgs.cpp', ER + 'std_msgs.cpp', 'eigen_ros/include/eigen_ros/eigen_ros.hpp', 'eigen_ros/include/eigen_ros/std_msgs.hpp'],
     [('from_ros, to_ros', ER + 'geometry_msgs.cpp'), ('matrix conversions', 'eigen_ros/include/eigen_ros/eigen_ros.hpp')])

prop('C16', 'Poses, odometry and inertial measurements compose consistently',
     'Moving a pose or an odometry by a transform multiplies the transforms in that order, moves the covariance into the new frame and keeps or takes over time stamps and frame names as documented. Rotating an inertial measurement into another frame rotates its '
     'vectors and their covariances; interpolating two measurements is refused outside their time interval, is linear (spherically for known orientations) in between, and gives unknown orientation if either is unknown. Values built from blocks place rotation before translation, '
     'and two values are equal only if all their fields are.',
     ['inputs'], 'every pose, transform, covariance, measurement and time',
     'The tests of these types compare a few instances with themselves; composition order and interpolation bounds are not exercised.',
     [ER + 'pose.cpp', ER + 'odometry.cpp', ER + 'imu.cpp', ER + 'twist.cpp'],
     [('apply_transform', ER + 'pose.cpp'), ('Imu::change_frame, interpolate', ER + 'imu.cpp')])

prop('C17', 'Whole-cloud utilities treat every point alike',
     'For a cloud of any size: converting nanoseconds to seconds divides the time of every point by one billion and changes nothing else; checking normals counts exactly the points whose normal has a length differing from one by '
     'more than the threshold; and the extracted unit vectors hold, column by column, the unit vector of each point in cloud order.',
     ['inputs'], 'every cloud of any size and every threshold',
     'No test calls these functions, and a skipped first or last point shows only for particular clouds.',
     [PT + 'include/pointcloud_tools/impl/pclpointcloud_utilities.hpp'],
     [('convert_ns_to_s, check_normals, extract_unit_vectors', PT + 'include/pointcloud_tools/impl/pclpointcloud_utilities.hpp')])

prop('C18', 'Image operations keep the camera calibration consistent with the image',
     'Rotating an image by a quarter, half or three-quarter turn, or flipping it about either axis or both, changes the camera calibration to that of the new image: sizes and focal lengths are exchanged by quarter turns only, the principal point is where the '
     'old one lands in the new image, and every other field is kept. Angles are taken modulo a full turn, and angles that are not a positive multiple of a quarter turn and unknown flips are refused.',
     ['inputs'], 'every calibration, angle and flip option',
     'The camera package has no tests.',
     ['camera_tools/src/image_operations.cpp'],
     [('Rotate::Rotate, Rotate::apply, Flip::Flip, Flip::apply', 'camera_tools/src/image_operations.cpp')])

prop('C19', 'The stereo tracker keeps the identity of every track',
     'For any remembered tracks, detector, optical flow and matcher, a frame reports first the remembered tracks that were followed in both images and still satisfy the stereo filters, in their order and with their identity, and then the new matches between detected '
     'keypoints that are not too close to a followed one, each with the next unused identity, so that identities are never reused or shared. Matches index the keypoints reported with them, and what is reported is what is remembered for the next frame. '
     'Images of different sizes are refused, and the statistics count the keypoints and matches of each stage, on the first frame too.',
     ['inputs', 'histories'], 'every sequence of frames (one arbitrary remembered state and one arbitrary frame), every set of keypoints, every optical flow, detector and matcher',
     'The tracker has no tests; an index that mixes up left and right, tracked and new, or kept and dropped keypoints shows only when some keypoints are lost and others are not.',
     ['serpent/src/front_end/stereo/stereo_feature_tracker.cpp', 'serpent/include/serpent/front_end/stereo/stereo_feature_tracker.hpp'],
     [('StereoFeatureTracker::process, track_previous_keypoints, remove_close_keypoints', 'serpent/src/front_end/stereo/stereo_feature_tracker.cpp')])

prop('C20', 'The factor graph manager keeps values, factors and keys in step',
     'Every value, factor and time stamp is stored and found under its own key, or the key of its name plus the offset; a new value or factor is known at once and pending until taken out, and overwriting keeps both copies equal. '
     'Factors connect the states their documentation names, stereo factors exactly those of landmarks also seen in the previous frame; an optimisation passes on everything pending up to its key once, and marginalises what has left the window. '
     'Ranges include both ends, and absent names, time stamps, values, camera poses and key priorities are refused.',
     ['inputs', 'histories'], 'every manager state (any keys, values, factors, landmarks), every argument; the optimiser itself is left uninterpreted',
     'The back end has no tests; a wrong key, a factor that is recorded but never optimised, or a range that stops early shows only in particular histories.',
     ['serpent/src/back_end/graph_manager.cpp', 'serpent/include/serpent/back_end/graph_manager.hpp'],
     [('GraphManager, ISAM2GraphManager', 'serpent/src/back_end/graph_manager.cpp')])

prop('C21', 'Body frames give the configured transform between any two frames',
     'Every configured frame is known by its name, its frame id and its aliases, nested frames compose with their parent, the transform to and from the body are inverse, and the transform between two frames is T_1^B T_B^2, except that moving frames are looked up at '
     'the time asked for, from the first frame id to the second. Contradictory, duplicate or malformed configurations are refused. '
     'Exactly the fixed frames that did not come from a lookup are broadcast relative to the body, and every alias at its frame.',
     ['inputs'], 'every configuration tree (every entry, two levels of nesting, any number of aliases), every frame, alias and time; the tf tree is left uninterpreted',
     'The package needs a running ROS master and parameter server; no test reads a frame tree.',
     ['eigen_ros/src/body_frames.cpp', 'eigen_ros/src/body_frames_tf.cpp', 'eigen_ros/include/eigen_ros/body_frames.hpp'],
     [('BodyFrames::BodyFrames, process_frames, transform_from_node, lookup_transform, frame_to_frame', 'eigen_ros/src/body_frames.cpp'),
      ('BodyFramesTf::BodyFramesTf', 'eigen_ros/src/body_frames_tf.cpp')])
