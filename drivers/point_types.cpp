#include "verif.hpp"
#include "pointcloud_tools/src/point_types.cpp"
using V3 = Eigen::Vector3f; using M3 = Eigen::Matrix3f; using Tr = Eigen::Translation<float, 3>;
using V6 = Eigen::Matrix<float, 6, 1>;

namespace impl {
PointUnit unit_copy(const _PointUnit& p) { return PointUnit(p); }
PointUnit unit_default() { return PointUnit(); }
PointNormalUnit normal_unit_copy(const _PointNormalUnit& p) { return PointNormalUnit(p); }
PointNormalUnit normal_unit_default() { return PointNormalUnit(); }
PointCovariance covariance_copy(const _PointCovariance& p) { return PointCovariance(p); }
PointCovariance covariance_default() { return PointCovariance(); }
PointNormalCovariance normal_covariance_copy(const _PointNormalCovariance& p) { return PointNormalCovariance(p); }
PointNormalCovariance normal_covariance_default() { return PointNormalCovariance(); }
PointAngleAxis angle_axis_copy(const _PointAngleAxis& p) { return PointAngleAxis(p); }
PointAngleAxis angle_axis_default() { return PointAngleAxis(); }
PointAngleAxis from_isometry(const Eigen::Isometry3f& t) { return PointAngleAxis(t); }
PointAngleAxis from_angle_axis(const V3& p, const Eigen::AngleAxisf& a) { return PointAngleAxis(p, a); }
PointAngleAxis from_quaternion(const V3& p, const Eigen::Quaternionf& q) { return PointAngleAxis(p, q); }
PointAngleAxis from_translation(const Tr& p, const Eigen::Quaternionf& q) { return PointAngleAxis(p, q); }
PointAngleAxis from_translation_matrix(const Tr& p, const M3& m) { return PointAngleAxis(p, m); }
void set_isometry(PointAngleAxis& x, const Eigen::Isometry3f& t) { x.setPose(t); }
void set_angle_axis(PointAngleAxis& x, const V3& p, const Eigen::AngleAxisf& a) { x.setPose(p, a); }
void set_quaternion(PointAngleAxis& x, const V3& p, const Eigen::Quaternionf& q) { x.setPose(p, q); }
void set_matrix(PointAngleAxis& x, const V3& p, const M3& m) { x.setPose(p, m); }
void set_translation(PointAngleAxis& x, const Tr& p, const Eigen::Quaternionf& q) { x.setPose(p, q); }
void set_translation_matrix(PointAngleAxis& x, const Tr& p, const M3& m) { x.setPose(p, m); }
void rotate_angle_axis(PointAngleAxis& x, const Eigen::AngleAxisf& a) { x.setAngleAxis(a); }
void rotate_quaternion(PointAngleAxis& x, const Eigen::Quaternionf& q) { x.setAngleAxis(q); }
void rotate_matrix(PointAngleAxis& x, const M3& m) { x.setAngleAxis(m); }
float angle(const PointAngleAxis& x) { return x.angle(); }
M3 rotation_matrix(PointAngleAxis& x) { return x.getRotationMatrix(); }
M3 quaternion(PointAngleAxis& x) { return x.getQuaternion().toRotationMatrix(); }
Eigen::Matrix4f isometry(PointAngleAxis& x) { return x.getIsometry().matrix(); }
M3 outer(const PointUnit& p) { return p.get_unit_outer_product(); }
M3 outer_n(const PointNormalUnit& p) { return p.get_unit_outer_product(); }
V3 unit3(const PointNormalUnit& p) { return p.getUnitVector3fMap(); }
Eigen::Vector4f unit4(const PointUnit& p) { return p.getUnitVector4fMap(); }
void set_unit3(PointNormalUnit& p, const V3& u) { p.getUnitVector3fMap() = u; }
void set_unit4(PointUnit& p, const Eigen::Vector4f& u) { p.getUnitVector4fMap() = u; }
M3 covariance(const PointCovariance& p) { return p.getCovarianceMatrix(); }
M3 covariance_n(const PointNormalCovariance& p) { return p.getCovarianceMatrix(); }
void set_covariance(PointCovariance& p, const M3& m) { p.setCovariance(m); }
void set_covariance_n(PointNormalCovariance& p, const M3& m) { p.setCovariance(m); }
V6 covariance_vector(const PointNormalCovariance& p) { return p.getCovarianceVector6fMap(); }
void set_covariance_vector(PointCovariance& p, const V6& v) { p.getCovarianceVector6fMap() = v; }
}
namespace spec {
PointUnit unit_copy(const _PointUnit& p) {
    PointUnit r;
    r.data[0] = p.x; r.data[1] = p.y; r.data[2] = p.z; r.data[3] = 1;
    r.data_u[0] = p.ux; r.data_u[1] = p.uy; r.data_u[2] = p.uz; r.data_u[3] = 0;
    return r;
}
PointUnit unit_default() {
    _PointUnit z;
    z.x = z.y = z.z = z.ux = z.uy = z.uz = 0;
    return unit_copy(z);
}
PointNormalUnit normal_unit_copy(const _PointNormalUnit& p) {
    PointNormalUnit r;
    r.data[0] = p.x; r.data[1] = p.y; r.data[2] = p.z; r.data[3] = 1;
    r.data_n[0] = p.normal_x; r.data_n[1] = p.normal_y; r.data_n[2] = p.normal_z; r.data_n[3] = 0;
    r.curvature = p.curvature;
    r.data_u[0] = p.ux; r.data_u[1] = p.uy; r.data_u[2] = p.uz; r.data_u[3] = 0;
    return r;
}
PointNormalUnit normal_unit_default() {
    _PointNormalUnit z;
    z.x = z.y = z.z = z.ux = z.uy = z.uz = z.normal_x = z.normal_y = z.normal_z = z.curvature = 0;
    return normal_unit_copy(z);
}
PointCovariance covariance_copy(const _PointCovariance& p) {
    PointCovariance r;
    r.data[0] = p.x; r.data[1] = p.y; r.data[2] = p.z; r.data[3] = 1;
    for (int i = 0; i < 6; ++i) r.covariance[i] = p.covariance[i];
    return r;
}
PointCovariance covariance_default() {
    _PointCovariance z;
    z.x = z.y = z.z = 0;
    for (int i = 0; i < 6; ++i) z.covariance[i] = 0;
    return covariance_copy(z);
}
PointNormalCovariance normal_covariance_copy(const _PointNormalCovariance& p) {
    PointNormalCovariance r;
    r.data[0] = p.x; r.data[1] = p.y; r.data[2] = p.z; r.data[3] = 1;
    r.data_n[0] = p.normal_x; r.data_n[1] = p.normal_y; r.data_n[2] = p.normal_z; r.data_n[3] = 0;
    r.curvature = p.curvature;
    for (int i = 0; i < 6; ++i) r.covariance[i] = p.covariance[i];
    return r;
}
PointNormalCovariance normal_covariance_default() {
    _PointNormalCovariance z;
    z.x = z.y = z.z = z.normal_x = z.normal_y = z.normal_z = z.curvature = 0;
    for (int i = 0; i < 6; ++i) z.covariance[i] = 0;
    return normal_covariance_copy(z);
}
PointAngleAxis angle_axis_copy(const _PointAngleAxis& p) {
    PointAngleAxis r;
    r.data[0] = p.x; r.data[1] = p.y; r.data[2] = p.z; r.data[3] = 1;
    r.data_r[0] = p.rx; r.data_r[1] = p.ry; r.data_r[2] = p.rz; r.data_r[3] = 0;
    return r;
}
PointAngleAxis make(const V3& p, const V3& r) {
    _PointAngleAxis z;
    z.x = p(0); z.y = p(1); z.z = p(2);
    z.rx = r(0); z.ry = r(1); z.rz = r(2);
    return angle_axis_copy(z);
}
V3 rotation_vector(const Eigen::AngleAxisf& a) { return a.angle() * a.axis(); }
V3 position(const Tr& p) { return V3(p.x(), p.y(), p.z()); }
PointAngleAxis angle_axis_default() { return make(V3::Zero(), V3::Zero()); }
PointAngleAxis from_isometry(const Eigen::Isometry3f& t) { return make(t.translation(), rotation_vector(Eigen::AngleAxisf(t.linear()))); }
PointAngleAxis from_angle_axis(const V3& p, const Eigen::AngleAxisf& a) { return make(p, rotation_vector(a)); }
PointAngleAxis from_quaternion(const V3& p, const Eigen::Quaternionf& q) { return make(p, rotation_vector(Eigen::AngleAxisf(q))); }
PointAngleAxis from_translation(const Tr& p, const Eigen::Quaternionf& q) { return make(position(p), rotation_vector(Eigen::AngleAxisf(q))); }
PointAngleAxis from_translation_matrix(const Tr& p, const M3& m) { return make(position(p), rotation_vector(Eigen::AngleAxisf(m))); }
void put(PointAngleAxis& x, const V3& p) { x.x = p(0); x.y = p(1); x.z = p(2); }
void put_rotation(PointAngleAxis& x, const Eigen::AngleAxisf& a) { const V3 r = rotation_vector(a); x.rx = r(0); x.ry = r(1); x.rz = r(2); }
void set_isometry(PointAngleAxis& x, const Eigen::Isometry3f& t) { put(x, t.translation()); put_rotation(x, Eigen::AngleAxisf(t.linear())); }
void set_angle_axis(PointAngleAxis& x, const V3& p, const Eigen::AngleAxisf& a) { put(x, p); put_rotation(x, a); }
void set_quaternion(PointAngleAxis& x, const V3& p, const Eigen::Quaternionf& q) { put(x, p); put_rotation(x, Eigen::AngleAxisf(q)); }
void set_matrix(PointAngleAxis& x, const V3& p, const M3& m) { put(x, p); put_rotation(x, Eigen::AngleAxisf(m)); }
void set_translation(PointAngleAxis& x, const Tr& p, const Eigen::Quaternionf& q) { put(x, position(p)); put_rotation(x, Eigen::AngleAxisf(q)); }
void set_translation_matrix(PointAngleAxis& x, const Tr& p, const M3& m) { put(x, position(p)); put_rotation(x, Eigen::AngleAxisf(m)); }
void rotate_angle_axis(PointAngleAxis& x, const Eigen::AngleAxisf& a) { put_rotation(x, a); }
void rotate_quaternion(PointAngleAxis& x, const Eigen::Quaternionf& q) { put_rotation(x, Eigen::AngleAxisf(q)); }
void rotate_matrix(PointAngleAxis& x, const M3& m) { put_rotation(x, Eigen::AngleAxisf(m)); }
float angle(const PointAngleAxis& x) { return V3(x.rx, x.ry, x.rz).norm(); }
// Rodrigues' formula
M3 rotation_matrix(PointAngleAxis& x) {
    const V3 r(x.rx, x.ry, x.rz);
    M3 m = M3::Identity();
    const float a = r.norm();
    if (a > 0) {
        const V3 u = r / a;
        M3 k;
        k << 0, -u(2), u(1), u(2), 0, -u(0), -u(1), u(0), 0;
        m = std::cos(a) * M3::Identity() + std::sin(a) * k + (1 - std::cos(a)) * (u * u.transpose());
    }
    return m;
}
M3 quaternion(PointAngleAxis& x) { return rotation_matrix(x); }
Eigen::Matrix4f isometry(PointAngleAxis& x) {
    Eigen::Matrix4f m = Eigen::Matrix4f::Identity();
    m.block<3, 3>(0, 0) = rotation_matrix(x);
    m(0, 3) = x.x; m(1, 3) = x.y; m(2, 3) = x.z;
    return m;
}
M3 product(float a, float b, float c) {
    M3 m;
    m << a * a, a * b, a * c, a * b, b * b, b * c, a * c, b * c, c * c;
    return m;
}
M3 outer(const PointUnit& p) { return product(p.ux, p.uy, p.uz); }
M3 outer_n(const PointNormalUnit& p) { return product(p.ux, p.uy, p.uz); }
V3 unit3(const PointNormalUnit& p) { return V3(p.ux, p.uy, p.uz); }
Eigen::Vector4f unit4(const PointUnit& p) { return Eigen::Vector4f(p.ux, p.uy, p.uz, p.data_u[3]); }
void set_unit3(PointNormalUnit& p, const V3& u) { p.ux = u(0); p.uy = u(1); p.uz = u(2); }
void set_unit4(PointUnit& p, const Eigen::Vector4f& u) { p.ux = u(0); p.uy = u(1); p.uz = u(2); p.data_u[3] = u(3); }
M3 symmetric(float xx, float xy, float xz, float yy, float yz, float zz) {
    M3 m;
    m(0, 0) = xx; m(1, 1) = yy; m(2, 2) = zz;
    m(0, 1) = m(1, 0) = xy; m(0, 2) = m(2, 0) = xz; m(1, 2) = m(2, 1) = yz;
    return m;
}
M3 covariance(const PointCovariance& p) { return symmetric(p.covariance_xx, p.covariance_xy, p.covariance_xz, p.covariance_yy, p.covariance_yz, p.covariance_zz); }
M3 covariance_n(const PointNormalCovariance& p) { return symmetric(p.covariance_xx, p.covariance_xy, p.covariance_xz, p.covariance_yy, p.covariance_yz, p.covariance_zz); }
bool is_symmetric(const M3& m) { return m(0, 1) == m(1, 0) && m(0, 2) == m(2, 0) && m(1, 2) == m(2, 1); }
void set_covariance(PointCovariance& p, const M3& m) {
    verif::assume(is_symmetric(m));
    p.covariance_xx = m(0, 0); p.covariance_xy = m(0, 1); p.covariance_xz = m(0, 2);
    p.covariance_yy = m(1, 1); p.covariance_yz = m(1, 2); p.covariance_zz = m(2, 2);
}
void set_covariance_n(PointNormalCovariance& p, const M3& m) {
    verif::assume(is_symmetric(m));
    p.covariance_xx = m(0, 0); p.covariance_xy = m(0, 1); p.covariance_xz = m(0, 2);
    p.covariance_yy = m(1, 1); p.covariance_yz = m(1, 2); p.covariance_zz = m(2, 2);
}
V6 covariance_vector(const PointNormalCovariance& p) {
    V6 v;
    v << p.covariance_xx, p.covariance_xy, p.covariance_xz, p.covariance_yy, p.covariance_yz, p.covariance_zz;
    return v;
}
void set_covariance_vector(PointCovariance& p, const V6& v) {
    p.covariance_xx = v(0); p.covariance_xy = v(1); p.covariance_xz = v(2);
    p.covariance_yy = v(3); p.covariance_yz = v(4); p.covariance_zz = v(5);
}
}
