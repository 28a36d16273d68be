#include "verif.hpp"
#include <eigen_ext/covariance.hpp>
using MX = Eigen::MatrixXd;
template<typename S, int N> using M = Eigen::Matrix<S, N, N>;

namespace ref {
template<typename S, int N> bool valid(const M<S, N>& C, S precision) {
    for (int i = 0; i < N; ++i)
        for (int j = 0; j < N; ++j)
            if (!std::isfinite(C(i, j))) return false;
    for (int i = 0; i < N; ++i)
        for (int j = 0; j < i; ++j) {
            const S d = C(i, j) - C(j, i);
            if (d > precision || -d > precision) return false;
        }
    Eigen::LLT<M<S, N>> llt(C);
    return llt.info() == Eigen::Success;
}
template<typename S, int N> M<S, N> swap_blocks(const M<S, N>& C, Eigen::Index b) {
    if (b < 1 || b >= N) throw std::runtime_error("boundary");
    M<S, N> r;
    for (int i = 0; i < N; ++i)
        for (int j = 0; j < N; ++j) r(i, j) = C((i + b) % N, (j + b) % N);
    return r;
}
}
namespace impl {
bool valid3(const M<double, 3>& C, double p) { return eigen_ext::is_valid_covariance(C, p); }
bool valid3_exact(const M<double, 3>& C) { return eigen_ext::is_valid_covariance(C); }
bool valid6(const M<double, 6>& C, double p) { return eigen_ext::is_valid_covariance(C, p); }
bool valid1(const M<double, 1>& C, double p) { return eigen_ext::is_valid_covariance(C, p); }
bool valid3f(const M<float, 3>& C, float p) { return eigen_ext::is_valid_covariance(C, p); }
bool valid23(const Eigen::Matrix<double, 2, 3>& C, double p) { return eigen_ext::is_valid_covariance(C, p); }
#define IMPL_RE(N, B) M<double, N> reorder##N##_##B(const M<double, N>& C) { return eigen_ext::reorder_covariance(C, B); }
IMPL_RE(6, 3) IMPL_RE(6, 1) IMPL_RE(6, 2) IMPL_RE(6, 4) IMPL_RE(6, 5) IMPL_RE(3, 1) IMPL_RE(3, 2) IMPL_RE(2, 1) IMPL_RE(4, 1)
M<float, 6> reorder6f_3(const M<float, 6>& C) { return eigen_ext::reorder_covariance(C, 3); }
// swapping at b and then at n - b restores the matrix
M<double, 6> reorder_round(const M<double, 6>& C) { return eigen_ext::reorder_covariance(eigen_ext::reorder_covariance(C, 2), 4); }
M<double, 6> throws_zero(const M<double, 6>& C) { return eigen_ext::reorder_covariance(C, 0); }
M<double, 6> throws_size(const M<double, 6>& C) { return eigen_ext::reorder_covariance(C, 6); }
M<double, 6> throws_beyond(const M<double, 6>& C) { return eigen_ext::reorder_covariance(C, 9); }
M<double, 6> throws_negative(const M<double, 6>& C) { return eigen_ext::reorder_covariance(C, -1); }
Eigen::Matrix<double, 2, 3> throws_not_square(const Eigen::Matrix<double, 2, 3>& C) { return eigen_ext::reorder_covariance(C, 1); }
M<double, 4> reorder_dynamic(const M<double, 4>& C) {
    const MX D = C;
    const MX R = eigen_ext::reorder_covariance(D, 1);
    return M<double, 4>(R);
}
}
namespace spec {
bool valid3(const M<double, 3>& C, double p) { return ref::valid<double, 3>(C, p); }
bool valid3_exact(const M<double, 3>& C) { return ref::valid<double, 3>(C, 0.0); }
bool valid6(const M<double, 6>& C, double p) { return ref::valid<double, 6>(C, p); }
bool valid1(const M<double, 1>& C, double p) { return ref::valid<double, 1>(C, p); }
bool valid3f(const M<float, 3>& C, float p) { return ref::valid<float, 3>(C, p); }
bool valid23(const Eigen::Matrix<double, 2, 3>& C, double p) { return false; }
#define SPEC_RE(N, B) M<double, N> reorder##N##_##B(const M<double, N>& C) { return ref::swap_blocks<double, N>(C, B); }
SPEC_RE(6, 3) SPEC_RE(6, 1) SPEC_RE(6, 2) SPEC_RE(6, 4) SPEC_RE(6, 5) SPEC_RE(3, 1) SPEC_RE(3, 2) SPEC_RE(2, 1) SPEC_RE(4, 1)
M<float, 6> reorder6f_3(const M<float, 6>& C) { return ref::swap_blocks<float, 6>(C, 3); }
M<double, 6> reorder_round(const M<double, 6>& C) { return C; }
M<double, 6> throws_zero(const M<double, 6>& C) { throw std::runtime_error("refused"); }
M<double, 6> throws_size(const M<double, 6>& C) { throw std::runtime_error("refused"); }
M<double, 6> throws_beyond(const M<double, 6>& C) { throw std::runtime_error("refused"); }
M<double, 6> throws_negative(const M<double, 6>& C) { throw std::runtime_error("refused"); }
Eigen::Matrix<double, 2, 3> throws_not_square(const Eigen::Matrix<double, 2, 3>& C) { throw std::runtime_error("refused"); }
M<double, 4> reorder_dynamic(const M<double, 4>& C) { return ref::swap_blocks<double, 4>(C, 1); }
}
