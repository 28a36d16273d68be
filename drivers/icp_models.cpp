#include "verif.hpp"
#include <pcl/point_types.h>
#include <serpent/front_end/lidar/registration_covariance.hpp>
using V3 = Eigen::Vector3d; using M6 = Eigen::Matrix<double, 6, 6>;
using Tf = eigen_ext::PrecomputedTransformComponents<double>;
namespace nl { using PointPoint = serpent::PointToPointIcpNonlinearModel<pcl::PointXYZ, pcl::PointXYZ>;
using PointPlane = serpent::PointToPlaneIcpNonlinearModel<pcl::PointNormal, pcl::PointNormal>; }
namespace lin { using PointPoint = serpent::PointToPointIcpLinearisedModel<pcl::PointXYZ, pcl::PointXYZ>;
using PointPlane = serpent::PointToPlaneIcpLinearisedModel<pcl::PointNormal, pcl::PointNormal>; }

namespace impl {
M6 pp_lin_xx(const V3& r, const V3& t, const V3& p, const V3& q) { return lin::PointPoint::compute_half_d2F_dx2(Tf(r, t), p, q); }
M6 pp_lin_zx(const V3& r, const V3& t, const V3& p, const V3& q) { return lin::PointPoint::compute_half_d2F_dzdx(Tf(r, t), p, q); }
M6 pl_lin_xx(const V3& r, const V3& t, const V3& p, const V3& q, const V3& n) { return lin::PointPlane::compute_half_d2F_dx2(Tf(r, t), p, q, n); }
M6 pl_lin_zx(const V3& r, const V3& t, const V3& p, const V3& q, const V3& n) { return lin::PointPlane::compute_half_d2F_dzdx(Tf(r, t), p, q, n); }
M6 pp_xx(const V3& r, const V3& t, const V3& p, const V3& q) { return nl::PointPoint::compute_half_d2F_dx2(Tf(r, t), p, q); }
M6 pp_zx(const V3& r, const V3& t, const V3& p, const V3& q) { return nl::PointPoint::compute_half_d2F_dzdx(Tf(r, t), p, q); }
M6 pl_xx(const V3& r, const V3& t, const V3& p, const V3& q, const V3& n) { return nl::PointPlane::compute_half_d2F_dx2(Tf(r, t), p, q, n); }
M6 pl_zx(const V3& r, const V3& t, const V3& p, const V3& q, const V3& n) { return nl::PointPlane::compute_half_d2F_dzdx(Tf(r, t), p, q, n); }
M6 zero_rotation_pp_xx(const V3& t, const V3& p, const V3& q) { return nl::PointPoint::compute_half_d2F_dx2(Tf(V3::Zero(), t), p, q); }
M6 zero_rotation_pp_zx(const V3& t, const V3& p, const V3& q) { return nl::PointPoint::compute_half_d2F_dzdx(Tf(V3::Zero(), t), p, q); }
M6 zero_rotation_pl_xx(const V3& t, const V3& p, const V3& q, const V3& n) { return nl::PointPlane::compute_half_d2F_dx2(Tf(V3::Zero(), t), p, q, n); }
M6 zero_rotation_pl_zx(const V3& t, const V3& p, const V3& q, const V3& n) { return nl::PointPlane::compute_half_d2F_dzdx(Tf(V3::Zero(), t), p, q, n); }
bool pp_nl_process(const pcl::PointXYZ& a, const pcl::PointXYZ& b, const Tf& tf, M6& xx, M6& zx) { return nl::PointPoint::process_correspondence(a, b, tf, xx, zx); }
bool pp_nl_process_x(const pcl::PointXYZ& a, const pcl::PointXYZ& b, const Tf& tf, M6& xx) { return nl::PointPoint::process_correspondence(a, b, tf, xx); }
bool pl_nl_process(const pcl::PointNormal& a, const pcl::PointNormal& b, const Tf& tf, M6& xx, M6& zx) { return nl::PointPlane::process_correspondence(a, b, tf, xx, zx); }
bool pl_nl_process_x(const pcl::PointNormal& a, const pcl::PointNormal& b, const Tf& tf, M6& xx) { return nl::PointPlane::process_correspondence(a, b, tf, xx); }
bool pp_lin_process(const pcl::PointXYZ& a, const pcl::PointXYZ& b, const Tf& tf, M6& xx, M6& zx) { return lin::PointPoint::process_correspondence(a, b, tf, xx, zx); }
bool pp_lin_process_x(const pcl::PointXYZ& a, const pcl::PointXYZ& b, const Tf& tf, M6& xx) { return lin::PointPoint::process_correspondence(a, b, tf, xx); }
bool pl_lin_process(const pcl::PointNormal& a, const pcl::PointNormal& b, const Tf& tf, M6& xx, M6& zx) { return lin::PointPlane::process_correspondence(a, b, tf, xx, zx); }
bool pl_lin_process_x(const pcl::PointNormal& a, const pcl::PointNormal& b, const Tf& tf, M6& xx) { return lin::PointPlane::process_correspondence(a, b, tf, xx); }
}
namespace spec {
// value, two directional derivatives and the mixed second derivative
struct D {
    double v = 0, a = 0, b = 0, ab = 0;
};
D operator+(const D& x, const D& y) { return {x.v + y.v, x.a + y.a, x.b + y.b, x.ab + y.ab}; }
D operator-(const D& x, const D& y) { return {x.v - y.v, x.a - y.a, x.b - y.b, x.ab - y.ab}; }
D operator*(const D& x, const D& y) { return {x.v * y.v, x.a * y.v + x.v * y.a, x.b * y.v + x.v * y.b, x.ab * y.v + x.a * y.b + x.b * y.a + x.v * y.ab}; }
// f(x) given f, f', f''
D apply(const D& x, double f, double f1, double f2) { return {f, f1 * x.a, f1 * x.b, f1 * x.ab + f2 * x.a * x.b}; }

// half the squared residual as a function of x = (rotation vector, translation) and z = (source point, target point)
D half_cost(const V3& r, const V3& t, const V3& p, const V3& q, const V3* n, bool linear, bool zero, int i, int j) {
    D y[12];
    for (int k = 0; k < 3; ++k) { y[k].v = r(k); y[3 + k].v = t(k); y[6 + k].v = p(k); y[9 + k].v = q(k); }
    y[i].a = 1;
    y[j].b = 1;
    // w = r x p,  u = r x (r x p)
    const D w0 = y[1] * y[8] - y[2] * y[7], w1 = y[2] * y[6] - y[0] * y[8], w2 = y[0] * y[7] - y[1] * y[6];
    D m[3];
    if (linear) {
        m[0] = y[6] + w0 + y[3] - y[9]; m[1] = y[7] + w1 + y[4] - y[10]; m[2] = y[8] + w2 + y[5] - y[11];
    } else {
        const D s = y[0] * y[0] + y[1] * y[1] + y[2] * y[2];
        // sin(a)/a and (1 - cos(a))/a^2 as functions of s = a^2, and their limits at zero
        const double a = std::sqrt(s.v), c = std::cos(a), sn = std::sin(a);
        const D f = zero ? apply(s, 1, -1.0 / 6, 1.0 / 60) : apply(s, sn / a, (a * c - sn) / (2 * a * a * a), (3 * sn - 3 * a * c - a * a * sn) / (4 * a * a * a * a * a));
        const D g = zero ? apply(s, 0.5, -1.0 / 24, 1.0 / 360) : apply(s, (1 - c) / (a * a), (a * sn - 2 * (1 - c)) / (2 * a * a * a * a), (a * a * c - 5 * a * sn + 8 * (1 - c)) / (4 * a * a * a * a * a * a));
        const D u0 = y[1] * w2 - y[2] * w1, u1 = y[2] * w0 - y[0] * w2, u2 = y[0] * w1 - y[1] * w0;
        m[0] = y[6] + f * w0 + g * u0 + y[3] - y[9];
        m[1] = y[7] + f * w1 + g * u1 + y[4] - y[10];
        m[2] = y[8] + f * w2 + g * u2 + y[5] - y[11];
    }
    if (n == nullptr) return m[0] * m[0] + m[1] * m[1] + m[2] * m[2];
    D e;
    for (int k = 0; k < 3; ++k) {
        D nk;
        nk.v = (*n)(k);
        e = e + nk * m[k];
    }
    return e * e;
}
M6 second(const V3& r, const V3& t, const V3& p, const V3& q, const V3* n, bool linear, int col, bool zero = false) {
    if (!linear && !zero) verif::assume(r(0) != 0 || r(1) != 0 || r(2) != 0);
    M6 h;
    for (int i = 0; i < 6; ++i)
        for (int j = 0; j < 6; ++j) h(i, j) = half_cost(r, t, p, q, n, linear, zero, i, col + j).ab / 2;
    return h;
}
M6 pp_lin_xx(const V3& r, const V3& t, const V3& p, const V3& q) { return second(r, t, p, q, nullptr, true, 0); }
M6 pp_lin_zx(const V3& r, const V3& t, const V3& p, const V3& q) { return second(r, t, p, q, nullptr, true, 6); }
M6 pl_lin_xx(const V3& r, const V3& t, const V3& p, const V3& q, const V3& n) { return second(r, t, p, q, &n, true, 0); }
M6 pl_lin_zx(const V3& r, const V3& t, const V3& p, const V3& q, const V3& n) { return second(r, t, p, q, &n, true, 6); }
M6 pp_xx(const V3& r, const V3& t, const V3& p, const V3& q) { return second(r, t, p, q, nullptr, false, 0); }
M6 pp_zx(const V3& r, const V3& t, const V3& p, const V3& q) { return second(r, t, p, q, nullptr, false, 6); }
M6 pl_xx(const V3& r, const V3& t, const V3& p, const V3& q, const V3& n) { return second(r, t, p, q, &n, false, 0); }
M6 pl_zx(const V3& r, const V3& t, const V3& p, const V3& q, const V3& n) { return second(r, t, p, q, &n, false, 6); }
M6 zero_rotation_pp_xx(const V3& t, const V3& p, const V3& q) { return second(V3::Zero(), t, p, q, nullptr, false, 0, true); }
M6 zero_rotation_pp_zx(const V3& t, const V3& p, const V3& q) { return second(V3::Zero(), t, p, q, nullptr, false, 6, true); }
M6 zero_rotation_pl_xx(const V3& t, const V3& p, const V3& q, const V3& n) { return second(V3::Zero(), t, p, q, &n, false, 0, true); }
M6 zero_rotation_pl_zx(const V3& t, const V3& p, const V3& q, const V3& n) { return second(V3::Zero(), t, p, q, &n, false, 6, true); }
bool pp_nl_process(const pcl::PointXYZ& a, const pcl::PointXYZ& b, const Tf& tf, M6& xx, M6& zx) {
    xx = nl::PointPoint::compute_half_d2F_dx2(tf, V3(a.x, a.y, a.z), V3(b.x, b.y, b.z));
    zx = nl::PointPoint::compute_half_d2F_dzdx(tf, V3(a.x, a.y, a.z), V3(b.x, b.y, b.z));
    return true;
}
bool pp_nl_process_x(const pcl::PointXYZ& a, const pcl::PointXYZ& b, const Tf& tf, M6& xx) {
    xx = nl::PointPoint::compute_half_d2F_dx2(tf, V3(a.x, a.y, a.z), V3(b.x, b.y, b.z));
    return true;
}
bool pl_nl_process(const pcl::PointNormal& a, const pcl::PointNormal& b, const Tf& tf, M6& xx, M6& zx) {
    xx = nl::PointPlane::compute_half_d2F_dx2(tf, V3(a.x, a.y, a.z), V3(b.x, b.y, b.z), V3(b.normal_x, b.normal_y, b.normal_z));
    zx = nl::PointPlane::compute_half_d2F_dzdx(tf, V3(a.x, a.y, a.z), V3(b.x, b.y, b.z), V3(b.normal_x, b.normal_y, b.normal_z));
    return true;
}
bool pl_nl_process_x(const pcl::PointNormal& a, const pcl::PointNormal& b, const Tf& tf, M6& xx) {
    xx = nl::PointPlane::compute_half_d2F_dx2(tf, V3(a.x, a.y, a.z), V3(b.x, b.y, b.z), V3(b.normal_x, b.normal_y, b.normal_z));
    return true;
}
bool pp_lin_process(const pcl::PointXYZ& a, const pcl::PointXYZ& b, const Tf& tf, M6& xx, M6& zx) {
    xx = lin::PointPoint::compute_half_d2F_dx2(tf, V3(a.x, a.y, a.z), V3(b.x, b.y, b.z));
    zx = lin::PointPoint::compute_half_d2F_dzdx(tf, V3(a.x, a.y, a.z), V3(b.x, b.y, b.z));
    return true;
}
bool pp_lin_process_x(const pcl::PointXYZ& a, const pcl::PointXYZ& b, const Tf& tf, M6& xx) {
    xx = lin::PointPoint::compute_half_d2F_dx2(tf, V3(a.x, a.y, a.z), V3(b.x, b.y, b.z));
    return true;
}
bool pl_lin_process(const pcl::PointNormal& a, const pcl::PointNormal& b, const Tf& tf, M6& xx, M6& zx) {
    xx = lin::PointPlane::compute_half_d2F_dx2(tf, V3(a.x, a.y, a.z), V3(b.x, b.y, b.z), V3(b.normal_x, b.normal_y, b.normal_z));
    zx = lin::PointPlane::compute_half_d2F_dzdx(tf, V3(a.x, a.y, a.z), V3(b.x, b.y, b.z), V3(b.normal_x, b.normal_y, b.normal_z));
    return true;
}
bool pl_lin_process_x(const pcl::PointNormal& a, const pcl::PointNormal& b, const Tf& tf, M6& xx) {
    xx = lin::PointPlane::compute_half_d2F_dx2(tf, V3(a.x, a.y, a.z), V3(b.x, b.y, b.z), V3(b.normal_x, b.normal_y, b.normal_z));
    return true;
}
}
