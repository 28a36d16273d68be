#include "verif.hpp"
#include <cmath>
#include <limits>
#include <iomanip>
#include <iostream>
#include "ros_messages.hpp"
#include "eigen_ros/src/pose.cpp"
#include "eigen_ros/src/twist.cpp"
#include "eigen_ros/src/imu.cpp"
#include "eigen_ros/src/odometry.cpp"
#include "eigen_ros/src/std_msgs.cpp"
#include "eigen_ros/src/geometry_msgs.cpp"
#include "eigen_ros/src/sensor_msgs.cpp"
#include "eigen_ros/src/nav_msgs.cpp"
#include "eigen_ros/src/statistics_msgs.cpp"
namespace er = eigen_ros; namespace g = geometry_msgs;
using V3 = Eigen::Vector3d; using M3 = Eigen::Matrix3d; using M4 = Eigen::Matrix4d; using M6 = Eigen::Matrix<double, 6, 6>; using MX = Eigen::MatrixXd; using MF = Eigen::MatrixXf;
using Q = Eigen::Quaterniond; using Iso = Eigen::Isometry3d; using Str = std::string; using Time = ros::Time;

namespace use {
using M23 = Eigen::Matrix<double, 2, 3>; using Arr = std_msgs::Float64MultiArray; using V = std::vector<double>;
bool shape_in(int dims, unsigned rows, unsigned cols) {
    Arr m; m.layout.data_offset = 0; m.layout.dim.resize(dims); m.layout.dim[0].size = rows; m.layout.dim[0].stride = rows * cols;
    if (dims > 1) { m.layout.dim[1].size = cols; m.layout.dim[1].stride = cols; }
    m.data.resize(30); M23 a; er::from_ros(m, a); return true;
}
bool sized_in(int n) { MX a(2, 3); V v(n); er::from_ros(v, a); return true; }
}
namespace impl {
void point_in(const g::Point& m, V3& v) { er::from_ros(m, v); }
void point_out(g::Point& m, const V3& v) { er::to_ros(m, v); }
void vector_in(const g::Vector3& m, V3& v) { er::from_ros(m, v); }
void vector_out(g::Vector3& m, const V3& v) { er::to_ros(m, v); }
void quaternion_in(const g::Quaternion& m, Q& q) { er::from_ros(m, q); }
void quaternion_out(g::Quaternion& m, const Q& q) { er::to_ros(m, q); }
void pose_in(const g::Pose& m, er::Pose& p) { er::from_ros(m, p); }
void pose_out(g::Pose& m, const er::Pose& p) { er::to_ros(m, p); }
void pose_matrix_in(const g::Pose& m, M4& p) { er::from_ros(m, p); }
void pose_stamped_in(const g::PoseStamped& m, er::PoseStamped& p) { er::from_ros(m, p); }
void pose_stamped_out(g::PoseStamped& m, const er::PoseStamped& p) { er::to_ros(m, p); }
void pose_covariance_in(const g::PoseWithCovariance& m, er::Pose& p) { er::from_ros(m, p); }
void pose_covariance_out(g::PoseWithCovariance& m, const er::Pose& p) { er::to_ros(m, p); }
void pose_covariance_stamped_in(const g::PoseWithCovarianceStamped& m, er::PoseStamped& p) { er::from_ros(m, p); }
void pose_covariance_stamped_out(g::PoseWithCovarianceStamped& m, const er::PoseStamped& p) { er::to_ros(m, p); }
void transform_pose_in(const g::Transform& m, er::Pose& p) { er::from_ros(m, p); }
void transform_pose_out(g::Transform& m, const er::Pose& p) { er::to_ros(m, p); }
void transform_stamped_in(const g::TransformStamped& m, er::PoseStamped& p) { er::from_ros(m, p); }
void transform_stamped_out(g::TransformStamped& m, const er::PoseStamped& p) { er::to_ros(m, p); }
void transform_in(const g::Transform& m, Iso& p) { er::from_ros(m, p); }
void transform_out(g::Transform& m, const Iso& p) { er::to_ros(m, p); }
void transform_matrix_in(const g::Transform& m, M4& p) { er::from_ros(m, p); }
M3 quaternion_matrix_in(const g::Quaternion& m) { M3 r; er::from_ros(m, r); return r; }
void twist_in(const g::Twist& m, er::Twist& p) { er::from_ros(m, p); }
void twist_out(g::Twist& m, const er::Twist& p) { er::to_ros(m, p); }
void twist_covariance_in(const g::TwistWithCovariance& m, er::Twist& p) { er::from_ros(m, p); }
void twist_covariance_out(g::TwistWithCovariance& m, const er::Twist& p) { er::to_ros(m, p); }
void odometry_in(const nav_msgs::Odometry& m, er::Odometry& o) { er::from_ros(m, o); }
void odometry_out(nav_msgs::Odometry& m, const er::Odometry& o) { er::to_ros(m, o); }
void imu_in(const sensor_msgs::Imu& m, er::Imu& i) { er::from_ros(m, i); }
void imu_out(sensor_msgs::Imu& m, const er::Imu& i) { er::to_ros(m, i); }
void header_in(const std_msgs::Header& m, Time& t, Str& f) { er::from_ros(m, t, f); }
void header_out(std_msgs::Header& m, const Time& t, const Str& f) { er::to_ros(m, t, f); }
V3 point_both(const V3& v) { return er::from_ros<V3>(er::to_ros<g::Point>(v)); }
er::Odometry odometry_both(const er::Odometry& o) { return er::from_ros<er::Odometry>(er::to_ros<nav_msgs::Odometry>(o)); }
er::Imu imu_both(const er::Imu& i) { return er::from_ros<er::Imu>(er::to_ros<sensor_msgs::Imu>(i)); }
M3 pose_rotation_both(const M4& p) { g::Pose m; er::to_ros(m, p); M4 o; er::from_ros(m, o); return o.block<3, 3>(0, 0); }
V3 pose_translation_both(const M4& p) { g::Pose m; er::to_ros(m, p); M4 o; er::from_ros(m, o); return o.block<3, 1>(0, 3); }
M3 transform_rotation_both(const M4& p) { g::Transform m; er::to_ros(m, p); M4 o; er::from_ros(m, o); return o.block<3, 3>(0, 0); }
V3 transform_translation_both(const M4& p) { g::Transform m; er::to_ros(m, p); M4 o; er::from_ros(m, o); return o.block<3, 1>(0, 3); }
Iso transform_both(const Iso& p) { return er::from_ros<Iso>(er::to_ros<g::Transform>(p)); }
using M23 = Eigen::Matrix<double, 2, 3>; using Arr = std_msgs::Float64MultiArray; using V = std::vector<double>; using VF = std::vector<float>;
void array_out(Arr& m, const M23& a) { er::to_ros(m, a); }
M23 array_both(Arr m, const M23& a) { er::to_ros(m, a); M23 b; er::from_ros(m, b); return b; }
M23 array_in(unsigned offset, unsigned stride, const V& data) {
    Arr m; m.layout.data_offset = offset; m.layout.dim.resize(2); m.layout.dim[0].size = 2; m.layout.dim[1].size = 3; m.layout.dim[1].stride = stride; m.data = data;
    M23 a; er::from_ros(m, a); return a;
}
bool throws_one_dimension() { return use::shape_in(1, 6, 1); }
bool throws_three_dimensions() { return use::shape_in(3, 2, 3); }
bool throws_rows() { return use::shape_in(2, 3, 3); }
bool throws_cols() { return use::shape_in(2, 2, 2); }
bool throws_swapped() { return use::shape_in(2, 3, 2); }
bool throws_never() { return use::shape_in(2, 2, 3); }
MX covariance_in(double a, double b, double c, double d) { statistics_msgs::Covariance m; m.dimensions = 2; m.matrix = V{a, b, c, d}; return er::from_ros<MX>(m); }
MF covariance_float_in(float a, float b, float c, float d) { statistics_msgs::CovarianceFloat32 m; m.dimensions = 2; m.matrix = VF{a, b, c, d}; return er::from_ros<MF>(m); }
MX covariance_stamped_in(const std_msgs::Header& h, double a, double b, double c, double d, Time& t, Str& f) {
    statistics_msgs::CovarianceStamped m; m.header = h; m.covariance.dimensions = 2; m.covariance.matrix = V{a, b, c, d};
    MX r; er::from_ros(m, r, t, f); return r;
}
MF covariance_float_stamped_in(const std_msgs::Header& h, float a, float b, float c, float d, Time& t, Str& f) {
    statistics_msgs::CovarianceFloat32Stamped m; m.header = h; m.covariance.dimensions = 2; m.covariance.matrix = VF{a, b, c, d};
    MF r; er::from_ros(m, r, t, f); return r;
}
void covariance_out(statistics_msgs::Covariance& m, const M3& c) { MX d = c; er::to_ros(m, d); }
void covariance_float_out(statistics_msgs::CovarianceFloat32& m, const Eigen::Matrix3f& c) { MF d = c; er::to_ros(m, d); }
void covariance_stamped_out(statistics_msgs::CovarianceStamped& m, const M3& c, const Time& t, const Str& f) { MX d = c; er::to_ros(m, d, t, f); }
void covariance_float_stamped_out(statistics_msgs::CovarianceFloat32Stamped& m, const Eigen::Matrix3f& c, const Time& t, const Str& f) { MF d = c; er::to_ros(m, d, t, f); }
bool throws_short_vector() { return use::sized_in(5); }
bool throws_long_vector() { return use::sized_in(7); }
bool throws_no_vector() { return use::sized_in(6); }
bool throws_covariance_out(const M23& c) { MX d = c; statistics_msgs::Covariance m; er::to_ros(m, d); return true; }
bool throws_covariance_float_out(const Eigen::Matrix<float, 3, 2>& c) { MF d = c; statistics_msgs::CovarianceFloat32 m; er::to_ros(m, d); return true; }
}

namespace spec {
void point_in(const g::Point& m, V3& v) { v(0) = m.x; v(1) = m.y; v(2) = m.z; }
void point_out(g::Point& m, const V3& v) { m.x = v(0); m.y = v(1); m.z = v(2); }
void vector_in(const g::Vector3& m, V3& v) { v(0) = m.x; v(1) = m.y; v(2) = m.z; }
void vector_out(g::Vector3& m, const V3& v) { m.x = v(0); m.y = v(1); m.z = v(2); }
void quaternion_in(const g::Quaternion& m, Q& q) { q = Q(m.w, m.x, m.y, m.z); }
void quaternion_out(g::Quaternion& m, const Q& q) { m.x = q.x(); m.y = q.y(); m.z = q.z(); m.w = q.w(); }
void pose_in(const g::Pose& m, er::Pose& p) { point_in(m.position, p.position); quaternion_in(m.orientation, p.orientation); }
void pose_out(g::Pose& m, const er::Pose& p) { point_out(m.position, p.position); quaternion_out(m.orientation, p.orientation); }
void matrix_of(const V3& t, const Q& q, M4& p) {
    const M3 R = q.matrix();
    for (int i = 0; i < 3; ++i) {
        for (int j = 0; j < 3; ++j) p(i, j) = R(i, j);
        p(i, 3) = t(i);
        p(3, i) = 0;
    }
    p(3, 3) = 1;
}
void pose_matrix_in(const g::Pose& m, M4& p) { V3 t; Q q; point_in(m.position, t); quaternion_in(m.orientation, q); matrix_of(t, q, p); }
void pose_stamped_in(const g::PoseStamped& m, er::PoseStamped& p) { p.timestamp = m.header.stamp; pose_in(m.pose, p.data); }
void pose_stamped_out(g::PoseStamped& m, const er::PoseStamped& p) { m.header.stamp = p.timestamp; pose_out(m.pose, p.data); }
// messages order covariances [translation, rotation], poses and twists here [rotation, translation]
void reordered_in(const boost::array<double, 36>& m, M6& c) {
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) c(i, j) = m[6 * ((i + 3) % 6) + (j + 3) % 6];
}
void reordered_out(boost::array<double, 36>& m, const M6& c) {
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) m[6 * i + j] = c((i + 3) % 6, (j + 3) % 6);
}
void pose_covariance_in(const g::PoseWithCovariance& m, er::Pose& p) { pose_in(m.pose, p); reordered_in(m.covariance, p.covariance); }
void pose_covariance_out(g::PoseWithCovariance& m, const er::Pose& p) { pose_out(m.pose, p); reordered_out(m.covariance, p.covariance); }
void pose_covariance_stamped_in(const g::PoseWithCovarianceStamped& m, er::PoseStamped& p) { p.timestamp = m.header.stamp; pose_covariance_in(m.pose, p.data); }
void pose_covariance_stamped_out(g::PoseWithCovarianceStamped& m, const er::PoseStamped& p) { m.header.stamp = p.timestamp; pose_covariance_out(m.pose, p.data); }
void transform_pose_in(const g::Transform& m, er::Pose& p) { vector_in(m.translation, p.position); quaternion_in(m.rotation, p.orientation); }
void transform_pose_out(g::Transform& m, const er::Pose& p) { vector_out(m.translation, p.position); quaternion_out(m.rotation, p.orientation); }
void transform_stamped_in(const g::TransformStamped& m, er::PoseStamped& p) { p.timestamp = m.header.stamp; transform_pose_in(m.transform, p.data); }
void transform_stamped_out(g::TransformStamped& m, const er::PoseStamped& p) { m.header.stamp = p.timestamp; transform_pose_out(m.transform, p.data); }
void transform_in(const g::Transform& m, Iso& p) {
    Q q; V3 t;
    quaternion_in(m.rotation, q); vector_in(m.translation, t);
    p.linear() = q.matrix(); p.translation() = t; p.makeAffine();
}
void transform_out(g::Transform& m, const Iso& p) { vector_out(m.translation, V3(p.translation())); quaternion_out(m.rotation, Q(M3(p.linear()))); }
void transform_matrix_in(const g::Transform& m, M4& p) { V3 t; Q q; vector_in(m.translation, t); quaternion_in(m.rotation, q); matrix_of(t, q, p); }
M3 quaternion_matrix_in(const g::Quaternion& m) { return Q(m.w, m.x, m.y, m.z).matrix(); }
void twist_in(const g::Twist& m, er::Twist& p) { vector_in(m.linear, p.linear); vector_in(m.angular, p.angular); }
void twist_out(g::Twist& m, const er::Twist& p) { vector_out(m.linear, p.linear); vector_out(m.angular, p.angular); }
void twist_covariance_in(const g::TwistWithCovariance& m, er::Twist& p) { twist_in(m.twist, p); reordered_in(m.covariance, p.covariance); }
void twist_covariance_out(g::TwistWithCovariance& m, const er::Twist& p) { twist_out(m.twist, p); reordered_out(m.covariance, p.covariance); }
void odometry_in(const nav_msgs::Odometry& m, er::Odometry& o) {
    o.timestamp = m.header.stamp; o.frame = m.header.frame_id; o.child_frame = m.child_frame_id;
    pose_covariance_in(m.pose, o.pose); twist_covariance_in(m.twist, o.twist);
}
void odometry_out(nav_msgs::Odometry& m, const er::Odometry& o) {
    m.header.stamp = o.timestamp; m.header.frame_id = o.frame; m.child_frame_id = o.child_frame;
    pose_covariance_out(m.pose, o.pose); twist_covariance_out(m.twist, o.twist);
}
void rows_in(const boost::array<double, 9>& m, M3& c) { for (int i = 0; i < 9; ++i) c(i / 3, i % 3) = m[i]; }
void rows_out(boost::array<double, 9>& m, const M3& c) { for (int i = 0; i < 9; ++i) m[i] = c(i / 3, i % 3); }
void imu_in(const sensor_msgs::Imu& m, er::Imu& i) {
    i.timestamp = m.header.stamp; i.frame = m.header.frame_id;
    quaternion_in(m.orientation, i.orientation); vector_in(m.angular_velocity, i.angular_velocity); vector_in(m.linear_acceleration, i.linear_acceleration);
    rows_in(m.orientation_covariance, i.orientation_covariance); rows_in(m.angular_velocity_covariance, i.angular_velocity_covariance);
    rows_in(m.linear_acceleration_covariance, i.linear_acceleration_covariance);
}
void imu_out(sensor_msgs::Imu& m, const er::Imu& i) {
    m.header.stamp = i.timestamp; m.header.frame_id = i.frame;
    quaternion_out(m.orientation, i.orientation); vector_out(m.angular_velocity, i.angular_velocity); vector_out(m.linear_acceleration, i.linear_acceleration);
    rows_out(m.orientation_covariance, i.orientation_covariance); rows_out(m.angular_velocity_covariance, i.angular_velocity_covariance);
    rows_out(m.linear_acceleration_covariance, i.linear_acceleration_covariance);
}
void header_in(const std_msgs::Header& m, Time& t, Str& f) { t = m.stamp; f = m.frame_id; }
void header_out(std_msgs::Header& m, const Time& t, const Str& f) { m.stamp = t; m.frame_id = f; }
V3 point_both(const V3& v) { return v; }
er::Odometry odometry_both(const er::Odometry& o) { return o; }
er::Imu imu_both(const er::Imu& i) { return i; }
M3 pose_rotation_both(const M4& p) { return M3(Q(M3(p.block<3, 3>(0, 0))).matrix()); }
V3 pose_translation_both(const M4& p) { return p.block<3, 1>(0, 3); }
M3 transform_rotation_both(const M4& p) { return M3(Q(M3(p.block<3, 3>(0, 0))).matrix()); }
V3 transform_translation_both(const M4& p) { return p.block<3, 1>(0, 3); }
Iso transform_both(const Iso& p) { return p; }
using M23 = Eigen::Matrix<double, 2, 3>; using Arr = std_msgs::Float64MultiArray; using V = std::vector<double>; using VF = std::vector<float>;
void array_out(Arr& m, const M23& a) {
    m.layout.data_offset = 0;
    m.layout.dim.clear();
    std_msgs::MultiArrayDimension d;
    d.label = "rows"; d.size = 2; d.stride = 6; m.layout.dim.push_back(d);
    d.label = "cols"; d.size = 3; d.stride = 3; m.layout.dim.push_back(d);
    m.data.resize(6);
    for (int i = 0; i < 6; ++i) m.data[i] = a(i / 3, i % 3);
}
M23 array_both(Arr m, const M23& a) { return a; }
M23 array_in(unsigned offset, unsigned stride, const V& data) {
    M23 a;
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) a(i, j) = data[offset + stride * i + j];
    return a;
}
bool refused() { throw std::runtime_error("refused"); }
bool throws_one_dimension() { return refused(); }
bool throws_three_dimensions() { return refused(); }
bool throws_rows() { return refused(); }
bool throws_cols() { return refused(); }
bool throws_swapped() { return refused(); }
bool throws_never() { return true;}
MX covariance_in(double a, double b, double c, double d) { MX m(2, 2); m(0, 0) = a; m(0, 1) = b; m(1, 0) = c; m(1, 1) = d; return m; }
MF covariance_float_in(float a, float b, float c, float d) { MF m(2, 2); m(0, 0) = a; m(0, 1) = b; m(1, 0) = c; m(1, 1) = d; return m; }
MX covariance_stamped_in(const std_msgs::Header& h, double a, double b, double c, double d, Time& t, Str& f) { t = h.stamp; f = h.frame_id; return covariance_in(a, b, c, d); }
MF covariance_float_stamped_in(const std_msgs::Header& h, float a, float b, float c, float d, Time& t, Str& f) { t = h.stamp; f = h.frame_id; return covariance_float_in(a, b, c, d); }
void covariance_out(statistics_msgs::Covariance& m, const M3& c) { m.dimensions = 3; m.matrix.resize(9); for (int i = 0; i < 9; ++i) m.matrix[i] = c(i / 3, i % 3); }
void covariance_float_out(statistics_msgs::CovarianceFloat32& m, const Eigen::Matrix3f& c) { m.dimensions = 3; m.matrix.resize(9); for (int i = 0; i < 9; ++i) m.matrix[i] = c(i / 3, i % 3); }
void covariance_stamped_out(statistics_msgs::CovarianceStamped& m, const M3& c, const Time& t, const Str& f) { m.header.stamp = t; m.header.frame_id = f; covariance_out(m.covariance, c); }
void covariance_float_stamped_out(statistics_msgs::CovarianceFloat32Stamped& m, const Eigen::Matrix3f& c, const Time& t, const Str& f) { m.header.stamp = t; m.header.frame_id = f; covariance_float_out(m.covariance, c); }
bool throws_short_vector() { return refused(); }
bool throws_long_vector() { return refused(); }
bool throws_no_vector() { return true; }
bool throws_covariance_out(const M23&) { throw std::runtime_error("refused"); }
bool throws_covariance_float_out(const Eigen::Matrix<float, 3, 2>&) { throw std::runtime_error("refused"); }
}
