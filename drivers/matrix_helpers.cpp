#include "verif.hpp"
#include <eigen_ext/geometry.hpp>
#include <eigen_ext/matrix.hpp>
using V3 = Eigen::Vector3d; using M3 = Eigen::Matrix3d; using V3f = Eigen::Vector3f; using M3f = Eigen::Matrix3f; using V6 = Eigen::Matrix<double, 6, 1>;
using M6 = Eigen::Matrix<double, 6, 6>; using M34 = Eigen::Matrix<double, 3, 4>;

namespace impl {
M3 skew(const V3& v) { return eigen_ext::skew_symmetric<double>(v); }
M3f skew_f(const V3f& v) { return eigen_ext::skew_symmetric<float>(v); }
V3 unskew(const M3& m) { return eigen_ext::from_skew_symmetric<double>(m); }
V3f unskew_f(const M3f& m) { return eigen_ext::from_skew_symmetric<float>(m); }
V3 unskew_skew(const V3& v) { return eigen_ext::from_skew_symmetric<double>(eigen_ext::skew_symmetric<double>(v)); }
V3 skew_is_cross(const V3& v, const V3& w) { return eigen_ext::skew_symmetric<double>(v) * w; }
V3 interp(const V3& a, const V3& b, double s) { return eigen_ext::linear_interpolate(a, b, s); }
M34 interp_m(const M34& a, const M34& b, double s) { return eigen_ext::linear_interpolate(a, b, s); }
bool nonzero3(const M3& m) { return eigen_ext::non_zero_diagonals(m); }
bool nonzero6(const M6& m) { return eigen_ext::non_zero_diagonals(m); }
V3 norm3(double x, double y, double z) { return eigen_ext::safe_normalise<double>(x, y, z); }
V6 norm6(const V6& v) { return eigen_ext::safe_normalise<double, 6>(v); }
V3f norm3f(const V3f& v) { return eigen_ext::safe_normalise<float, 3>(v); }
bool sym3(const M3& m, double p) { return eigen_ext::is_symmetric(m, p); }
bool sym3_exact(const M3& m) { return eigen_ext::is_symmetric(m); }
bool sym6(const M6& m, double p) { return eigen_ext::is_symmetric(m, p); }
bool pd3(const M3& m) { return eigen_ext::is_positive_definite<M3>(m); }
bool pd6(const M6& m) { return eigen_ext::is_positive_definite<M6>(m); }
V3 polar(double x, double y, double z) { return eigen_ext::cartesian_to_polar<double>(x, y, z); }
V3 polar_v(const V3& p) { return eigen_ext::cartesian_to_polar<double>(p); }
// the polar coordinates describe the same point
V3 polar_back(const V3& p) {
    const V3 c = eigen_ext::cartesian_to_polar<double>(p);
    return V3(c(0) * std::sin(c(2)) * std::cos(c(1)), c(0) * std::sin(c(2)) * std::sin(c(1)), c(0) * std::cos(c(2)));
}
}
namespace ref {
template<typename S, int N> bool sym(const Eigen::Matrix<S, N, N>& m, S p) {
    for (int i = 0; i < N; ++i)
        for (int j = 0; j < N; ++j)
            if (m(i, j) - m(j, i) > p) return false;
    return true;
}
template<typename S> Eigen::Matrix<S, 3, 1> unskew(const Eigen::Matrix<S, 3, 3>& m) {
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j <= i; ++j)
            if (m(i, j) + m(j, i) != 0) throw std::runtime_error("not skew symmetric");
    Eigen::Matrix<S, 3, 1> v;
    v(0) = m(2, 1); v(1) = m(0, 2); v(2) = m(1, 0);
    return v;
}
template<typename S, int N> Eigen::Matrix<S, N, 1> unit(const Eigen::Matrix<S, N, 1>& v) {
    S s = 0;
    for (int i = 0; i < N; ++i) s += v(i) * v(i);
    if (s == 0) throw std::runtime_error("zero");
    Eigen::Matrix<S, N, 1> r;
    for (int i = 0; i < N; ++i) r(i) = v(i) / std::sqrt(s);
    return r;
}
template<typename S> Eigen::Matrix<S, 3, 3> skew(const Eigen::Matrix<S, 3, 1>& v) {
    Eigen::Matrix<S, 3, 3> m;
    m(0, 0) = 0; m(0, 1) = -v(2); m(0, 2) = v(1);
    m(1, 0) = v(2); m(1, 1) = 0; m(1, 2) = -v(0);
    m(2, 0) = -v(1); m(2, 1) = v(0); m(2, 2) = 0;
    return m;
}
template<int N> bool diag(const Eigen::Matrix<double, N, N>& m) {
    for (int i = 0; i < N; ++i)
        if (!(m(i, i) > 0)) return false;
    return true;
}
}
namespace spec {
M3 skew(const V3& v) { return ref::skew<double>(v); }
M3f skew_f(const V3f& v) { return ref::skew<float>(v); }
V3 unskew(const M3& m) { return ref::unskew<double>(m); }
V3f unskew_f(const M3f& m) { return ref::unskew<float>(m); }
V3 unskew_skew(const V3& v) { return v; }
V3 skew_is_cross(const V3& v, const V3& w) { return V3(v(1) * w(2) - v(2) * w(1), v(2) * w(0) - v(0) * w(2), v(0) * w(1) - v(1) * w(0)); }
V3 interp(const V3& a, const V3& b, double s) { return a + s * (b - a); }
M34 interp_m(const M34& a, const M34& b, double s) { return a + s * (b - a); }
bool nonzero3(const M3& m) { return ref::diag<3>(m); }
bool nonzero6(const M6& m) { return ref::diag<6>(m); }
V3 norm3(double x, double y, double z) { return ref::unit<double, 3>(V3(x, y, z)); }
V6 norm6(const V6& v) { return ref::unit<double, 6>(v); }
V3f norm3f(const V3f& v) { return ref::unit<float, 3>(v); }
bool sym3(const M3& m, double p) { verif::assume(p >= 0); return ref::sym<double, 3>(m, p); }
bool sym3_exact(const M3& m) { return ref::sym<double, 3>(m, 0.0); }
bool sym6(const M6& m, double p) { verif::assume(p >= 0); return ref::sym<double, 6>(m, p); }
bool pd3(const M3& m) { Eigen::LLT<M3> l(m); return l.info() == Eigen::Success; }
bool pd6(const M6& m) { Eigen::LLT<M6> l(m); return l.info() == Eigen::Success; }
V3 polar(double x, double y, double z) {
    if (x == 0 && y == 0) throw std::runtime_error("azimuth undefined");
    const double rho = std::sqrt(x * x + y * y), r = std::sqrt(x * x + y * y + z * z);
    const double a = std::acos(x / rho);
    return V3(r, y < 0 ? 2 * M_PI - a : a, std::acos(z / r));
}
V3 polar_v(const V3& p) { return polar(p(0), p(1), p(2)); }
V3 polar_back(const V3& p) { verif::assume(p(0) != 0 || p(1) != 0); return p; }
}
