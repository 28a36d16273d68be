#include "verif.hpp"
#include <cmath>
#include <limits>
#include <iomanip>
#include <iostream>
#include "ros_messages.hpp"
#include "eigen_ros/src/pose.cpp"
#include "eigen_ros/src/twist.cpp"
#include "eigen_ros/src/imu.cpp"
#include "eigen_ros/src/odometry.cpp"
namespace er = eigen_ros;
using V3 = Eigen::Vector3d; using M3 = Eigen::Matrix3d; using M6 = Eigen::Matrix<double, 6, 6>;
using Q = Eigen::Quaterniond; using Iso = Eigen::Isometry3d; using Str = std::string; using Time = ros::Time;

namespace impl {
er::Pose pose_blocks(const V3& p, const Q& q, const M3& pc, const M3& oc) { return er::Pose(p, q, pc, oc); }
er::Pose pose_full(const V3& p, const Q& q, const M6& c) { return er::Pose(p, q, c); }
er::Pose pose_isometry(const Iso& T, const M6& c) { return er::Pose(T, c); }
er::Pose pose_default() { return er::Pose(); }
Iso pose_transform(const er::Pose& p) { return er::to_transform(p); }
Iso moved_transform(const er::Pose& p, const Iso& T) { return er::to_transform(er::apply_transform(p, T)); }
M6 moved_covariance(const er::Pose& p, const Iso& T) { return er::apply_transform(p, T).covariance; }
Iso moved_by_pose(const er::Pose& p, const er::Pose& T) { return er::to_transform(er::apply_transform(p, T)); }
Time moved_stamp(const er::PoseStamped& p, const Iso& T) { return er::apply_transform(p, T).timestamp; }
er::Pose moved_stamped(const er::PoseStamped& p, const Iso& T) { return er::apply_transform(p, T).data; }
bool pose_equal(const er::Pose& a, const er::Pose& b) { return a == b; }
bool twist_equal(const er::Twist& a, const er::Twist& b) { return a == b; }
bool stamped_equal(const er::PoseStamped& a, const er::PoseStamped& b) { return a == b; }
er::Twist twist_blocks(const V3& l, const V3& a, const M3& lc, const M3& ac) { return er::Twist(l, a, lc, ac); }
er::Twist twist_default() { return er::Twist(); }
M3 twist_linear(const er::Twist& t) { return t.linear_velocity_covariance(); }
M3 twist_angular(const er::Twist& t) { return t.angular_velocity_covariance(); }
er::Odometry odometry_moved(const er::Odometry& o, const er::PoseStamped& t) { return er::apply_transform(o, t); }
er::PoseStamped odometry_pose(const er::Odometry& o) { return o.pose_stamped(); }
er::TwistStamped odometry_twist(const er::Odometry& o) { return o.twist_stamped(); }
er::Imu imu_default() { return er::Imu(); }
M3 imu_orientation(er::Imu i, const Q& to) { i.change_frame(to, to.inverse()); return i.orientation.matrix(); }
void imu_vectors(const er::Imu& in, const Q& to, V3& w, M3& wc, V3& a, M3& ac) {
    er::Imu i = in;
    i.change_frame(to, to.inverse());
    w = i.angular_velocity; wc = i.angular_velocity_covariance; a = i.linear_acceleration; ac = i.linear_acceleration_covariance;
}
void imu_kept(const er::Imu& in, const Q& to, Time& t, Str& f) { er::Imu i = in; i.change_frame(to, to.inverse()); t = i.timestamp; f = i.frame; }
er::Imu imu_between(const er::Imu& a, const er::Imu& b, const Time& t) { return er::interpolate(a, b, t); }
bool throws_imu_between(const er::Imu& a, const er::Imu& b, const Time& t) { er::interpolate(a, b, t); return true; }
}

namespace spec {
M6 blocks(const M3& rotation, const M3& translation) {
    M6 c;
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) c(i, j) = i < 3 && j < 3 ? rotation(i % 3, j % 3) : i >= 3 && j >= 3 ? translation(i % 3, j % 3) : 0;
    return c;
}
er::Pose pose_full(const V3& p, const Q& q, const M6& c) { er::Pose r; r.position = p; r.orientation = q; r.covariance = c; return r; }
er::Pose pose_blocks(const V3& p, const Q& q, const M3& pc, const M3& oc) { return pose_full(p, q, blocks(oc, pc)); }
er::Pose pose_isometry(const Iso& T, const M6& c) { return pose_full(V3(T.translation()), Q(M3(T.linear())), c); }
er::Pose pose_default() { return pose_full(V3(0, 0, 0), Q(1, 0, 0, 0), blocks(M3::Zero(), M3::Zero())); }
Iso pose_transform(const er::Pose& p) { Iso T = Iso::Identity(); T.linear() = p.orientation.toRotationMatrix(); T.translation() = p.position; return T; }
Iso moved_transform(const er::Pose& p, const Iso& T) { return pose_transform(p) * T; }
M6 moved_covariance(const er::Pose& p, const Iso& T) {
    const Iso X = T.inverse();
    const M3 R = X.linear();
    const V3 t = X.translation();
    M3 tx;
    tx(0, 0) = 0; tx(0, 1) = -t(2); tx(0, 2) = t(1); tx(1, 0) = t(2); tx(1, 1) = 0; tx(1, 2) = -t(0); tx(2, 0) = -t(1); tx(2, 1) = t(0); tx(2, 2) = 0;
    const M3 tR = tx * R;
    M6 A;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { A(i, j) = R(i, j); A(i, j + 3) = 0; A(i + 3, j) = tR(i, j); A(i + 3, j + 3) = R(i, j); }
    return A * p.covariance * A.transpose();
}
Iso moved_by_pose(const er::Pose& p, const er::Pose& T) { return pose_transform(p) * pose_transform(T); }
Time moved_stamp(const er::PoseStamped& p, const Iso&) { return p.timestamp; }
er::Pose moved_stamped(const er::PoseStamped& p, const Iso& T) { return er::apply_transform(p.data, T); }
bool pose_equal(const er::Pose& a, const er::Pose& b) {
    return a.position.isApprox(b.position) && a.orientation.toRotationMatrix().isApprox(b.orientation.toRotationMatrix()) && a.covariance.isApprox(b.covariance);
}
bool twist_equal(const er::Twist& a, const er::Twist& b) { return a.linear.isApprox(b.linear) && a.angular.isApprox(b.angular) && a.covariance.isApprox(b.covariance); }
bool stamped_equal(const er::PoseStamped& a, const er::PoseStamped& b) { return a.timestamp == b.timestamp && pose_equal(a.data, b.data); }
er::Twist twist_full(const V3& l, const V3& a, const M6& c) { er::Twist t; t.linear = l; t.angular = a; t.covariance = c; return t; }
er::Twist twist_blocks(const V3& l, const V3& a, const M3& lc, const M3& ac) { return twist_full(l, a, blocks(ac, lc)); }
er::Twist twist_default() { return twist_full(V3(0, 0, 0), V3(0, 0, 0), blocks(M3::Zero(), M3::Zero())); }
M3 twist_linear(const er::Twist& t) { M3 m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m(i, j) = t.covariance(i + 3, j + 3); return m; }
M3 twist_angular(const er::Twist& t) { M3 m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m(i, j) = t.covariance(i, j); return m; }
er::Odometry odometry_moved(const er::Odometry& o, const er::PoseStamped& t) {
    er::Odometry r = o;
    r.pose = er::apply_transform(o.pose, t.data);
    r.timestamp = t.timestamp;
    return r;
}
er::PoseStamped odometry_pose(const er::Odometry& o) { er::PoseStamped p; p.data = o.pose; p.timestamp = o.timestamp; return p; }
er::TwistStamped odometry_twist(const er::Odometry& o) { er::TwistStamped p; p.data = o.twist; p.timestamp = o.timestamp; return p; }
er::Imu imu_default() {
    er::Imu i;
    i.orientation = Q(1, 0, 0, 0); i.angular_velocity = V3(0, 0, 0); i.linear_acceleration = V3(0, 0, 0);
    i.orientation_covariance = i.angular_velocity_covariance = i.linear_acceleration_covariance = M3::Zero();
    i.timestamp = Time(0.0); i.frame = "";
    return i;
}
M3 imu_orientation(er::Imu i, const Q& to) { return i.orientation.toRotationMatrix() * to.toRotationMatrix(); }
void imu_vectors(const er::Imu& in, const Q& to, V3& w, M3& wc, V3& a, M3& ac) {
    const M3 R = to.toRotationMatrix().transpose();
    w = R * in.angular_velocity; a = R * in.linear_acceleration;
    wc = R * in.angular_velocity_covariance * R.transpose(); ac = R * in.linear_acceleration_covariance * R.transpose();
}
void imu_kept(const er::Imu& in, const Q&, Time& t, Str& f) { t = in.timestamp; f = in.frame; }
bool throws_imu_between(const er::Imu& a, const er::Imu& b, const Time& t) {
    if (t.seconds < a.timestamp.seconds || t.seconds > b.timestamp.seconds) throw std::runtime_error("refused");
    return true;
}
bool unknown(const Q& q) { return q.w() == 0 && q.x() == 0 && q.y() == 0 && q.z() == 0; }
er::Imu imu_between(const er::Imu& a, const er::Imu& b, const Time& t) {
    throws_imu_between(a, b, t);
    if (a.timestamp.seconds == b.timestamp.seconds) return a;
    const double s = (t.seconds - a.timestamp.seconds) / (b.timestamp.seconds - a.timestamp.seconds);
    er::Imu r = s <= .5 ? a : b;
    r.timestamp = t;
    r.orientation = unknown(a.orientation) || unknown(b.orientation) ? Q(0, 0, 0, 0) : a.orientation.slerp(s, b.orientation);
    r.angular_velocity = (1 - s) * a.angular_velocity + s * b.angular_velocity;
    r.linear_acceleration = (1 - s) * a.linear_acceleration + s * b.linear_acceleration;
    return r;
}
}
