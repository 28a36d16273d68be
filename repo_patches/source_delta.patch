From 2b582fdaf1036d416677375d21fb0b9a7741f8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:26 +0000
Subject: [PATCH 01/21] fix: keep the focal length and baseline given to
 StereoDistanceFilter's constructor

set_fx and set_baseline recomputed their product from an uninitialised member.
---
 serpent/src/front_end/stereo/match_filters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/front_end/stereo/match_filters.cpp b/serpent/src/front_end/stereo/match_filters.cpp
index 286dfe0..e0a740c 100644
--- a/serpent/src/front_end/stereo/match_filters.cpp
+++ b/serpent/src/front_end/stereo/match_filters.cpp
@@ -74,7 +74,7 @@ float StereoMatchFilter::vertical_pixel_threshold() const {
 
 StereoDistanceFilter::StereoDistanceFilter(
         const float fx, const float baseline, const float max_distance, const float min_distance)
-    : fx_b(fx * baseline), max_distance(max_distance), min_distance(min_distance) {}
+    : fx(fx), baseline(baseline), fx_b(fx * baseline), max_distance(max_distance), min_distance(min_distance) {}
 
 cv::Ptr<StereoDistanceFilter> StereoDistanceFilter::create(
         const float fx, const float baseline, const float max_distance, const float min_distance) {
-- 
2.43.0


From 9aa9716196a731c9143b493d55019f159af1b2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:26 +0000
Subject: [PATCH 02/21] fix: start the window sums from zero instead of an
 uninitialised accumulator

---
 serpent/src/front_end/stereo/window_functions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serpent/src/front_end/stereo/window_functions.cpp b/serpent/src/front_end/stereo/window_functions.cpp
index 14fc361..20d98cf 100644
--- a/serpent/src/front_end/stereo/window_functions.cpp
+++ b/serpent/src/front_end/stereo/window_functions.cpp
@@ -10,7 +10,7 @@ bool window_within_image(const cv::Mat& image, const cv::Point2i& top_left, cons
 }
 
 double window_sum(const cv::Mat& image, const cv::Point2i& top_left, const cv::Size& window) {
-    double sum;
+    double sum{0.0};
     for (int row = 0; row < window.height; ++row) {
         for (int col = 0; col < window.width; ++col) {
             sum += static_cast<double>(image.at<unsigned char>(top_left.y + row, top_left.x + col));
@@ -24,7 +24,7 @@ double window_mean(const cv::Mat& image, const cv::Point2i& top_left, const cv::
 }
 
 double window_sum_squares(const cv::Mat& image, const cv::Point2i& top_left, const cv::Size& window) {
-    double squares;
+    double squares{0.0};
     for (int row = 0; row < window.height; ++row) {
         for (int col = 0; col < window.width; ++col) {
             squares += std::pow(static_cast<double>(image.at<unsigned char>(top_left.y + row, top_left.x + col)), 2.0);
-- 
2.43.0


From 7395074cd23b4e0eb35edf0eec98f0919606c8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:26 +0000
Subject: [PATCH 03/21] fix: project stereo points by their depth instead of
 reading past the end of the vector

---
 .../include/serpent/front_end/stereo/stereo_equations-inl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serpent/include/serpent/front_end/stereo/stereo_equations-inl.hpp b/serpent/include/serpent/front_end/stereo/stereo_equations-inl.hpp
index 666eddf..3a3a338 100644
--- a/serpent/include/serpent/front_end/stereo/stereo_equations-inl.hpp
+++ b/serpent/include/serpent/front_end/stereo/stereo_equations-inl.hpp
@@ -21,13 +21,13 @@ Eigen::Matrix<Scalar, 3, 1> stereo_backproject(const Eigen::Matrix<Scalar, 3, 1>
 template<typename Scalar>
 Eigen::Matrix<Scalar, 3, 1> stereo_project(
         const Eigen::Matrix<Scalar, 3, 1>& point, const Eigen::Matrix<Scalar, 3, 3>& intrinsic, const Scalar baseline) {
-    if (point[3] <= 0.0) {
+    if (point[2] <= 0.0) {
         throw std::runtime_error("Point is on or behind the image plane - cannot project onto plane.");
     }
     return Eigen::Matrix<Scalar, 3, 1>{intrinsic(0, 2), intrinsic(0, 2), intrinsic(1, 2)} +
            Eigen::Matrix<Scalar, 3, 1>{
                    intrinsic(0, 0) * point[0], intrinsic(0, 0) * (point[0] - baseline), intrinsic(1, 1) * point[1]} /
-                   point[3];
+                   point[2];
 }
 
 }
-- 
2.43.0


From 7afecc602ea829bd6a0983b42a18621a10362527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:49 +0000
Subject: [PATCH 04/21] fix: change_twist_reference_frame applies the adjoint
 instead of returning nothing

---
 eigen_ext/include/eigen_ext/geometry.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eigen_ext/include/eigen_ext/geometry.hpp b/eigen_ext/include/eigen_ext/geometry.hpp
index 42ce308..c0a91b1 100644
--- a/eigen_ext/include/eigen_ext/geometry.hpp
+++ b/eigen_ext/include/eigen_ext/geometry.hpp
@@ -316,7 +316,9 @@ Eigen::Matrix<Scalar, 6, 6> transform_adjoint(const Eigen::Transform<Scalar, 3,
 
 template<typename Scalar>
 Eigen::Matrix<Scalar, 6, 1> change_twist_reference_frame(const Eigen::Transform<Scalar, 3, Eigen::Isometry>& transform,
-        const Eigen::Matrix<Scalar, 6, 1>& twist) {}
+        const Eigen::Matrix<Scalar, 6, 1>& twist) {
+    return transform_adjoint(transform) * twist;
+}
 
 }
 
-- 
2.43.0


From 20ba240850fe485ee002dafbdcca50dc4454f746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:49 +0000
Subject: [PATCH 05/21] fix: normalise x by the planar range when computing the
 polar azimuth

---
 eigen_ext/include/eigen_ext/geometry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eigen_ext/include/eigen_ext/geometry.hpp b/eigen_ext/include/eigen_ext/geometry.hpp
index c0a91b1..e244c22 100644
--- a/eigen_ext/include/eigen_ext/geometry.hpp
+++ b/eigen_ext/include/eigen_ext/geometry.hpp
@@ -203,7 +203,7 @@ Eigen::Matrix<Scalar, 3, 1> cartesian_to_polar(const Scalar x, const Scalar y, c
     if (x2_plus_y2 == 0.0) {
         throw std::runtime_error("Failed to convert from cartesian to polar coordinates. x and y are zero.");
     }
-    const Scalar a_ = std::acos(x / x2_plus_y2);
+    const Scalar a_ = std::acos(x / std::sqrt(x2_plus_y2));
     const Scalar a = y >= 0.0 ? a_ : 2.0 * M_PI - a_;
     const Scalar e = std::acos(z / r);
     return Eigen::Matrix<Scalar, 3, 1>{r, a, e};
-- 
2.43.0


From bf2e7b0c6f7df587d81b42827ab35d28f2ecf53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:49 +0000
Subject: [PATCH 06/21] fix: from_skew_symmetric refuses every matrix that is
 not skew symmetric, as documented

---
 eigen_ext/include/eigen_ext/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eigen_ext/include/eigen_ext/matrix.hpp b/eigen_ext/include/eigen_ext/matrix.hpp
index 87a27a9..be466ac 100644
--- a/eigen_ext/include/eigen_ext/matrix.hpp
+++ b/eigen_ext/include/eigen_ext/matrix.hpp
@@ -81,7 +81,7 @@ Eigen::Matrix<Scalar, 3, 3> skew_symmetric(const Eigen::Matrix<Scalar, 3, 1>& v)
 
 template<typename Scalar>
 Eigen::Matrix<Scalar, 3, 1> from_skew_symmetric(const typename Eigen::Matrix<Scalar, 3, 3>& matrix) {
-    if (matrix.diagonal().maxCoeff() > 0.0) {
+    if ((matrix + matrix.transpose()).cwiseAbs().maxCoeff() > 0.0) {
         std::stringstream ss;
         ss << "Matrix was not skew-symmetric, was:\n" << matrix;
         throw std::runtime_error(ss.str());
-- 
2.43.0


From 5aa62f2f2b6c85fe5c3ab2f308110fc1c5adf371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:50 +0000
Subject: [PATCH 07/21] fix: give the reordered covariance its size, which
 dynamic matrices do not have by default

---
 eigen_ext/include/eigen_ext/covariance.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eigen_ext/include/eigen_ext/covariance.hpp b/eigen_ext/include/eigen_ext/covariance.hpp
index f9d4cbc..00d3683 100644
--- a/eigen_ext/include/eigen_ext/covariance.hpp
+++ b/eigen_ext/include/eigen_ext/covariance.hpp
@@ -67,7 +67,7 @@ Derived reorder_covariance(const Eigen::MatrixBase<Derived>& covariance, const E
     if (boundary >= size) {
         throw std::runtime_error("Reorder boundary outside of covariance matrix.");
     }
-    Derived reordered_covariance;
+    Derived reordered_covariance(size, size);
     reordered_covariance << covariance.block(boundary, boundary, size - boundary, size - boundary),
             covariance.block(boundary, 0, size - boundary, boundary),
             covariance.block(0, boundary, boundary, size - boundary), covariance.block(0, 0, boundary, boundary);
-- 
2.43.0


From e7ade215b4c596582a270f9c9a8ac54adbb44f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:50 +0000
Subject: [PATCH 08/21] fix: refuse negative reorder boundaries instead of
 reading outside the matrix

---
 eigen_ext/include/eigen_ext/covariance.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eigen_ext/include/eigen_ext/covariance.hpp b/eigen_ext/include/eigen_ext/covariance.hpp
index 00d3683..c279e29 100644
--- a/eigen_ext/include/eigen_ext/covariance.hpp
+++ b/eigen_ext/include/eigen_ext/covariance.hpp
@@ -57,8 +57,8 @@ bool is_valid_covariance(const Eigen::MatrixBase<Derived>& covariance, const typ
 
 template<typename Derived>
 Derived reorder_covariance(const Eigen::MatrixBase<Derived>& covariance, const Eigen::Index boundary) {
-    if (boundary == 0) {
-        throw std::runtime_error("Reorder boundary cannot be 0.");
+    if (boundary <= 0) {
+        throw std::runtime_error("Reorder boundary must be greater than 0.");
     }
     const Eigen::Index size = covariance.rows();
     if (size != covariance.cols()) {
-- 
2.43.0


From d5ce08b8f9910bbbc1c495fc5ed34d5a067d84b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:50 +0000
Subject: [PATCH 09/21] fix: a zero rotation vector gives the identity rotation
 instead of NaN

---
 .../include/eigen_ext/precomputed_transform_components.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/eigen_ext/include/eigen_ext/precomputed_transform_components.hpp b/eigen_ext/include/eigen_ext/precomputed_transform_components.hpp
index af9076e..4276bf4 100644
--- a/eigen_ext/include/eigen_ext/precomputed_transform_components.hpp
+++ b/eigen_ext/include/eigen_ext/precomputed_transform_components.hpp
@@ -48,8 +48,11 @@ PrecomputedTransformComponents<Scalar>::PrecomputedTransformComponents(const Eig
     : r_(r),
       t_(t) {
     a_ = r_.norm();
-    const Eigen::AngleAxis<Scalar> angleaxis{a_, r_ / a_};
-    R_ = angleaxis.toRotationMatrix();
+    if (a_ > static_cast<Scalar>(0)) {
+        R_ = Eigen::AngleAxis<Scalar>{a_, r_ / a_}.toRotationMatrix();
+    } else {
+        R_.setIdentity();
+    }
     sina_ = std::sin(a_);
     cosa_ = std::cos(a_);
     T_ << R_, t_, Eigen::Matrix<Scalar, 1, 3>::Zero(), static_cast<Scalar>(1);
-- 
2.43.0


From ec623ff85a86de3e81b90657b0b9909ad3f5b991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:06 +0000
Subject: [PATCH 10/21] fix: PointAngleAxis pose constructors initialise the
 homogeneous coordinates

---
 pointcloud_tools/src/point_types.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pointcloud_tools/src/point_types.cpp b/pointcloud_tools/src/point_types.cpp
index 22d2999..d03d393 100644
--- a/pointcloud_tools/src/point_types.cpp
+++ b/pointcloud_tools/src/point_types.cpp
@@ -123,23 +123,28 @@ PointAngleAxis::PointAngleAxis(const _PointAngleAxis& p) {
     data_r[3] = 0.0f;
 }
 
-PointAngleAxis::PointAngleAxis(const Eigen::Isometry3f& pose) {
+PointAngleAxis::PointAngleAxis(const Eigen::Isometry3f& pose)
+    : PointAngleAxis() {
     setPose(pose);
 }
 
-PointAngleAxis::PointAngleAxis(const Eigen::Vector3f& position, const Eigen::AngleAxisf& angle_axis) {
+PointAngleAxis::PointAngleAxis(const Eigen::Vector3f& position, const Eigen::AngleAxisf& angle_axis)
+    : PointAngleAxis() {
     setPose(position, angle_axis);
 }
 
-PointAngleAxis::PointAngleAxis(const Eigen::Vector3f& position, const Eigen::Quaternionf& quaternion) {
+PointAngleAxis::PointAngleAxis(const Eigen::Vector3f& position, const Eigen::Quaternionf& quaternion)
+    : PointAngleAxis() {
     setPose(position, quaternion);
 }
 
-PointAngleAxis::PointAngleAxis(const Eigen::Translation<float, 3>& position, const Eigen::Quaternionf& quaternion) {
+PointAngleAxis::PointAngleAxis(const Eigen::Translation<float, 3>& position, const Eigen::Quaternionf& quaternion)
+    : PointAngleAxis() {
     setPose(position, quaternion);
 }
 
-PointAngleAxis::PointAngleAxis(const Eigen::Translation<float, 3>& position, const Eigen::Matrix3f& rotation_matrix) {
+PointAngleAxis::PointAngleAxis(const Eigen::Translation<float, 3>& position, const Eigen::Matrix3f& rotation_matrix)
+    : PointAngleAxis() {
     setPose(position, rotation_matrix);
 }
 
-- 
2.43.0


From 73e01dc567382a26a6a71838f0a34bb965a4ff11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:19 +0000
Subject: [PATCH 11/21] fix: registration correspondences refer to points of
 the source cloud

With indices set, the i-th index was reported instead of the index of the
source point, so callers looked up the wrong point of the source cloud.
---
 .../include/pointcloud_tools/impl/registration_utilities.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp b/pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp
index 9d69c02..50c3339 100644
--- a/pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp
+++ b/pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp
@@ -41,7 +41,7 @@ pcl::CorrespondencesPtr compute_registration_correspondences(
             // Search for transformed point: p_{T} = T_{T}^{S} * p_{S}
             source_point.getVector4fMap() = transform * registration[i].getVector4fMap();  // Source point from indices
             if (search->nearestKSearch(source_point, 1, index, sq_dist) == 1 && sq_dist[0] <= max_sq_dist) {
-                correspondences->emplace_back(i, index[0], std::sqrt(sq_dist[0]));
+                correspondences->emplace_back((*registration.getIndices())[i], index[0], std::sqrt(sq_dist[0]));
             }
         }
     }
-- 
2.43.0


From 01986271a481b5f3024873c839df3c008c5672f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:34 +0000
Subject: [PATCH 12/21] fix: keypoint matching reports no match when the window
 leaves the image

The cost and matched outputs were left unset, so a keypoint near the image
border was reported as matched, or not, depending on stack contents.
---
 serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
index 65cece7..b040027 100644
--- a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
+++ b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
@@ -48,6 +48,8 @@ cv::KeyPoint StereoKeyPointMatcher::keypoint_in_other_image(const cv::KeyPoint&
     const cv::Point2i reference_image_top_left = top_left(image_keypoint.pt);
 
     // Validity check
+    cost = std::numeric_limits<double>::max();
+    matched = false;
     if (!window_within_image(reference_image, reference_image_top_left, window)) {
         return cv::KeyPoint{};
     }
@@ -58,7 +60,6 @@ cv::KeyPoint StereoKeyPointMatcher::keypoint_in_other_image(const cv::KeyPoint&
     // Iterate over valid x coordinates
     cv::Point2i search_image_top_left = reference_image_top_left;
     int min_cost_top_left_x = search_image_top_left.x;
-    cost = std::numeric_limits<double>::max();
     double second_cost{cost};
     const int increment = find_in_right ? -1 : 1;
     while ((find_in_right && search_image_top_left.x >= 0) ||
@@ -128,6 +129,7 @@ int StereoKeyPointMatcher::keypoint_index_in_other_image(const cv::KeyPoint& ima
     const cv::Point2i reference_image_top_left = top_left(image_keypoint.pt);
 
     // Validity check
+    cost = std::numeric_limits<double>::max();
     if (!window_within_image(reference_image, reference_image_top_left, window)) {
         return -1;
     }
@@ -137,7 +139,6 @@ int StereoKeyPointMatcher::keypoint_index_in_other_image(const cv::KeyPoint& ima
 
     // Find the min cost other image keypoint
     int min_cost_index{-1};
-    cost = std::numeric_limits<double>::max();
     double second_cost{cost};
     for (int i = 0; i < static_cast<int>(search_image_keypoints.size()); ++i) {
         const cv::KeyPoint& search_image_keypoint = search_image_keypoints[i];
-- 
2.43.0


From e21ced8e30ded902d250aea3955e0fa69a199cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:34 +0000
Subject: [PATCH 13/21] fix: ratio test compares the best cost with the
 second-best cost

The second-best cost was only updated when a new best was found, so a
runner-up seen after the best one was ignored.
---
 serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
index b040027..d882f3f 100644
--- a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
+++ b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
@@ -70,6 +70,8 @@ cv::KeyPoint StereoKeyPointMatcher::keypoint_in_other_image(const cv::KeyPoint&
             second_cost = cost;
             cost = window_cost;
             min_cost_top_left_x = search_image_top_left.x;
+        } else if (window_cost < second_cost) {
+            second_cost = window_cost;
         }
         search_image_top_left.x += increment;
     }
@@ -154,6 +156,8 @@ int StereoKeyPointMatcher::keypoint_index_in_other_image(const cv::KeyPoint& ima
                     second_cost = cost;
                     cost = window_cost;
                     min_cost_index = i;
+                } else if (window_cost < second_cost) {
+                    second_cost = window_cost;
                 }
             }
         }
-- 
2.43.0


From 2656a869e5a422cc3a0a6fa60afea92e6407538d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:34 +0000
Subject: [PATCH 14/21] fix: bidirectional matching uses the statistics of the
 window it compares

The reverse search evaluated other reference windows with the cost function
bound to the mean (or sum of squares) of the original reference window.
---
 serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
index d882f3f..c5bc405 100644
--- a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
+++ b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
@@ -82,7 +82,7 @@ cv::KeyPoint StereoKeyPointMatcher::keypoint_in_other_image(const cv::KeyPoint&
         cv::Point2i reverse_reference_image_top_left = search_image_top_left;
         while ((!find_in_right && reverse_reference_image_top_left.x >= 0) ||
                 (find_in_right && reverse_reference_image_top_left.x <= left_image.cols - window.width)) {
-            const double window_cost = cost_function(
+            const double window_cost = generate_cost_function(reference_image, reverse_reference_image_top_left)(
                     reference_image, search_image, reverse_reference_image_top_left, search_image_top_left, window);
             if (reverse_reference_image_top_left.x != reference_image_top_left.x && window_cost < cost) {
                 matched = false;
-- 
2.43.0


From 9bc16d1344f7fbe99ee68df3045092771957c8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:38 +0000
Subject: [PATCH 15/21] fix: to_ros replaces the dimensions a Float64MultiArray
 already has

---
 eigen_ros/include/eigen_ros/std_msgs.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eigen_ros/include/eigen_ros/std_msgs.hpp b/eigen_ros/include/eigen_ros/std_msgs.hpp
index d62221c..8e8b750 100644
--- a/eigen_ros/include/eigen_ros/std_msgs.hpp
+++ b/eigen_ros/include/eigen_ros/std_msgs.hpp
@@ -46,6 +46,7 @@ void to_ros(std_msgs::Float64MultiArray& msg, const Eigen::MatrixBase<Derived>&
         }
     }
     msg.layout.data_offset = 0;
+    msg.layout.dim.clear();
     std_msgs::MultiArrayDimension row_dim;
     row_dim.label = "rows";
     row_dim.size = rows;
-- 
2.43.0


From 8391609954748f57d5cc151a856f6f3760307d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:43 +0000
Subject: [PATCH 16/21] fix: refuse rotations that are not a quarter turn
 instead of leaving the option uninitialised

---
 camera_tools/src/image_operations.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/camera_tools/src/image_operations.cpp b/camera_tools/src/image_operations.cpp
index 3eacaec..0348a7b 100644
--- a/camera_tools/src/image_operations.cpp
+++ b/camera_tools/src/image_operations.cpp
@@ -18,6 +18,8 @@ Rotate::Rotate(int degrees_clockwise) {
         option = cv::RotateFlags::ROTATE_180;
     } else if (degrees_clockwise == 270) {
         option = cv::RotateFlags::ROTATE_90_COUNTERCLOCKWISE;
+    } else {
+        throw std::runtime_error("Rotate degrees_clockwise must be a multiple of 90");
     }
 }
 
-- 
2.43.0


From 92e9c1c727ff63c1fccce11c99ba0d39b2604144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:56 +0000
Subject: [PATCH 17/21] fix: stereo tracker statistics left uninitialised on
 the first frame

---
 .../src/front_end/stereo/stereo_feature_tracker.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/serpent/src/front_end/stereo/stereo_feature_tracker.cpp b/serpent/src/front_end/stereo/stereo_feature_tracker.cpp
index 5a5cf07..f771c47 100644
--- a/serpent/src/front_end/stereo/stereo_feature_tracker.cpp
+++ b/serpent/src/front_end/stereo/stereo_feature_tracker.cpp
@@ -101,10 +101,6 @@ StereoFeatureTracker::LRKeyPointMatches StereoFeatureTracker::process(const cv::
         LRF2FMatches f2f_matches;
         new_track_hypotheses = track_previous_keypoints(images, all_sof_keypoints, f2f_matches);
         ROS_DEBUG_STREAM("Tracked previous keypoints");
-        if (stats) {
-            stats->get().tracked_kp_count[0] = new_track_hypotheses.keypoints[0].size();
-            stats->get().tracked_kp_count[1] = new_track_hypotheses.keypoints[1].size();
-        }
         if (intermediate_images) {
             for (std::size_t lr = 0; lr < 2; ++lr) {
                 cv::drawMatches(previous_images[lr], previous_track_data.keypoints[lr], images[lr],
@@ -119,9 +115,12 @@ StereoFeatureTracker::LRKeyPointMatches StereoFeatureTracker::process(const cv::
             new_keypoints[lr] = remove_close_keypoints(new_keypoints[lr], new_track_hypotheses.keypoints[lr]);
             ROS_DEBUG_STREAM("Removed keypoints close to already tracked keypoints in the "
                              << (lr == 0 ? "left" : "right") << " frame");
-            if (stats) {
-                stats->get().filtered_extracted_kp_count[lr] = new_keypoints[lr].size();
-            }
+        }
+    }
+    if (stats) {
+        for (std::size_t lr = 0; lr < 2; ++lr) {
+            stats->get().tracked_kp_count[lr] = new_track_hypotheses.keypoints[lr].size();
+            stats->get().filtered_extracted_kp_count[lr] = new_keypoints[lr].size();
         }
     }
 
-- 
2.43.0


From ab550e28c16afd562792533fd0ac54f95805f2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:35 +0000
Subject: [PATCH 18/21] fix: copying values stops at the last value

add_values read the iterator past the end of the values whenever the last
requested key was the largest key of the graph.
---
 serpent/src/back_end/graph_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/back_end/graph_manager.cpp b/serpent/src/back_end/graph_manager.cpp
index 5deb41e..9e3007f 100644
--- a/serpent/src/back_end/graph_manager.cpp
+++ b/serpent/src/back_end/graph_manager.cpp
@@ -454,7 +454,7 @@ void GraphManager::update_from_values(const gtsam::Values& updated_values_) {
 void add_values(
         gtsam::Values& extracted_values, const gtsam::Values& values_, const gtsam::Key first, const gtsam::Key last) {
     auto it = values_.lower_bound(first);
-    while (it->key >= first && it->key <= last) {
+    while (it != values_.end() && it->key <= last) {
         extracted_values.insert(it->key, it->value);
         ++it;
     }
-- 
2.43.0


From 015c6e90b5476f0738819933cdab354b1138264c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:35 +0000
Subject: [PATCH 19/21] fix: values between two keys include landmarks when the
 first key added none

The landmarks of all keys of the range were left out unless the first key itself had added landmarks.
---
 serpent/src/back_end/graph_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/back_end/graph_manager.cpp b/serpent/src/back_end/graph_manager.cpp
index 9e3007f..c0f6a2d 100644
--- a/serpent/src/back_end/graph_manager.cpp
+++ b/serpent/src/back_end/graph_manager.cpp
@@ -467,7 +467,7 @@ gtsam::Values GraphManager::values(const int first, const int last) const {
     add_values(extracted_values, values_, V(first), V(last));
     add_values(extracted_values, values_, P(first), P(last));
     // Iterate over (ordered) map of stereo landmark ids
-    auto it = stereo_landmark_ids.find(first);
+    auto it = stereo_landmark_ids.lower_bound(first);
     while (it != stereo_landmark_ids.end() && it->first <= last) {
         for (const int id : it->second) {
             extracted_values.insert(S(id), values_.at(S(id)));
-- 
2.43.0


From 8430df7bea068d5cc377dc347070930fbcf0f25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:35 +0000
Subject: [PATCH 20/21] fix: the first stereo factor of a landmark belongs to
 the pose its features came from

The previous features need not be those of key - 1 (missed keys are documented as handled).
---
 serpent/src/back_end/graph_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/back_end/graph_manager.cpp b/serpent/src/back_end/graph_manager.cpp
index c0f6a2d..49460de 100644
--- a/serpent/src/back_end/graph_manager.cpp
+++ b/serpent/src/back_end/graph_manager.cpp
@@ -168,7 +168,7 @@ void GraphManager::create_stereo_factors_and_values(
                         features_im2->second.find(id) == features_im2->second.end()) {
                     // Previous state factor
                     auto stereo_factor = boost::make_shared<gtsam::GenericStereoFactor<gtsam::Pose3, gtsam::Point3>>(
-                            features_im1->second.at(id), stereo_noise_model, X(key_ - 1), S(id), K,
+                            features_im1->second.at(id), stereo_noise_model, X(features_im1->first), S(id), K,
                             body_to_stereo_left_cam);
                     factors__.push_back(stereo_factor);
                     new_factors__.push_back(stereo_factor);
-- 
2.43.0


From bc264bc66c702492bc60d406cf02c3d15ecf0bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:49 +0000
Subject: [PATCH 21/21] fix: moving body frames are not broadcast as static
 transforms

---
 eigen_ros/src/body_frames_tf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eigen_ros/src/body_frames_tf.cpp b/eigen_ros/src/body_frames_tf.cpp
index 09fcddf..7a81e4e 100644
--- a/eigen_ros/src/body_frames_tf.cpp
+++ b/eigen_ros/src/body_frames_tf.cpp
@@ -12,7 +12,7 @@ BodyFramesTf::BodyFramesTf(const std::string& node_namespace)
     std::vector<geometry_msgs::TransformStamped> transforms;
     for (const std::string& frame : body_frames.frames()) {
         const std::string frame_id = body_frames.frame_id(frame);
-        if (frame_id != body_frames.body_frame_id() && !body_frames.lookedup_tf(frame)) {
+        if (frame_id != body_frames.body_frame_id() && !body_frames.lookedup_tf(frame) && !body_frames.is_dynamic(frame)) {
             geometry_msgs::TransformStamped transform;
             transform.header.stamp = ros::Time(0);
             transform.header.frame_id = body_frames.body_frame_id();
-- 
2.43.0

