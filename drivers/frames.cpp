#include "verif.hpp"
#include <eigen_ext/geometry.hpp>
template<typename S> using M6 = Eigen::Matrix<S, 6, 6>;
template<typename S> using V6 = Eigen::Matrix<S, 6, 1>;
template<typename S> using M3 = Eigen::Matrix<S, 3, 3>;
template<typename S> using V3 = Eigen::Matrix<S, 3, 1>;
template<typename S> using Iso = Eigen::Transform<S, 3, Eigen::Isometry>;
template<typename S> using Quat = Eigen::Quaternion<S>;
template<typename S> using AA = Eigen::AngleAxis<S>;

namespace ref {
template<typename S> M3<S> cross_matrix(const V3<S>& t) {
    M3<S> m;
    m(0, 0) = 0; m(0, 1) = -t(2); m(0, 2) = t(1);
    m(1, 0) = t(2); m(1, 1) = 0; m(1, 2) = -t(0);
    m(2, 0) = -t(1); m(2, 1) = t(0); m(2, 2) = 0;
    return m;
}
// [R 0; [t]x R  R] acting on [rotation, translation]
template<typename S> M6<S> adjoint(const Iso<S>& T) {
    M3<S> R; V3<S> t;
    for (int i = 0; i < 3; ++i) {
        t(i) = T.matrix()(i, 3);
        for (int j = 0; j < 3; ++j) R(i, j) = T.matrix()(i, j);
    }
    const M3<S> tR = cross_matrix<S>(t) * R;
    M6<S> a;
    for (int i = 0; i < 3; ++i) {
        for (int j = 0; j < 3; ++j) {
            a(i, j) = R(i, j);
            a(i, j + 3) = 0;
            a(i + 3, j) = tR(i, j);
            a(i + 3, j + 3) = R(i, j);
        }
    }
    return a;
}
template<typename S> Iso<S> inverse(const Iso<S>& T) {
    Iso<S> I = Iso<S>::Identity();
    for (int i = 0; i < 3; ++i) {
        S s = 0;
        for (int j = 0; j < 3; ++j) {
            I.matrix()(i, j) = T.matrix()(j, i);
            s += T.matrix()(j, i) * T.matrix()(j, 3);
        }
        I.matrix()(i, 3) = -s;
    }
    return I;
}
template<typename S> Iso<S> compose(const Iso<S>& A, const Iso<S>& B) {
    Iso<S> C = Iso<S>::Identity();
    for (int i = 0; i < 3; ++i) {
        for (int j = 0; j < 4; ++j) {
            S s = j == 3 ? A.matrix()(i, 3) : S(0);
            for (int k = 0; k < 3; ++k) s += A.matrix()(i, k) * B.matrix()(k, j);
            C.matrix()(i, j) = s;
        }
    }
    return C;
}
template<typename S, int N> Eigen::Matrix<S, N, N> congruence(const Eigen::Matrix<S, N, N>& A, const Eigen::Matrix<S, N, N>& C) {
    Eigen::Matrix<S, N, N> r;
    const Eigen::Matrix<S, N, N> AC = A * C;
    for (int i = 0; i < N; ++i)
        for (int j = 0; j < N; ++j) {
            S s = 0;
            for (int k = 0; k < N; ++k) s += AC(i, k) * A(j, k);
            r(i, j) = s;
        }
    return r;
}
template<typename S> M3<S> rot(const Quat<S>& q) { return q.toRotationMatrix(); }
}

namespace impl {
#define IMPL(S, X)                                                                                                                            \
    M6<S> adjoint_##X(const Iso<S>& T) { return eigen_ext::transform_adjoint(T); }                                                            \
    M6<S> cov_frame_adj_##X(const M6<S>& C, const M6<S>& A) { return eigen_ext::change_covariance_frame<S>(C, A); }                           \
    M6<S> cov_frame_##X(const M6<S>& C, const Iso<S>& T) { return eigen_ext::change_covariance_frame<S>(C, T); }                              \
    Iso<S> rel_frame_##X(const Iso<S>& A, const Iso<S>& B) { return eigen_ext::change_relative_transform_frame<S>(A, B); }                    \
    Iso<S> rel_frame3_##X(const Iso<S>& A, const Iso<S>& B, const Iso<S>& C) { return eigen_ext::change_relative_transform_frame<S>(A, B, C); } \
    V6<S> twist_frame_##X(const Iso<S>& T, const V6<S>& v) { return eigen_ext::change_twist_reference_frame<S>(T, v); }                       \
    M6<S> compose_cov_##X(const M6<S>& P, const M6<S>& R, const Iso<S>& T) { return eigen_ext::compose_transform_covariance<S, 3>(P, R, T); } \
    M6<S> compose_cov_cross_##X(const M6<S>& P, const M6<S>& R, const Iso<S>& T, const M6<S>& X) { return eigen_ext::compose_transform_covariance<S, 3>(P, R, T, X); } \
    Iso<S> relative_##X(const Iso<S>& a, const Iso<S>& b) { return eigen_ext::relative_transform<S, 3>(a, b); }                               \
    M3<S> rot_cov_##X(const M3<S>& C, const M3<S>& R) { return eigen_ext::rotate_point_covariance(C, R); }                                    \
    M3<S> rot_cov_q_##X(const M3<S>& C, const Quat<S>& q) { return eigen_ext::rotate_point_covariance(C, q); }                                \
    M3<S> rot_cov_aa_##X(const M3<S>& C, const AA<S>& a) { return eigen_ext::rotate_point_covariance(C, a); }
IMPL(double, d)
IMPL(float, f)
// the frame change of a relative transform and its inverse undo each other
Iso<double> rel_frame_round(const Iso<double>& A, const Iso<double>& B) {
    return eigen_ext::change_relative_transform_frame<double>(eigen_ext::change_relative_transform_frame<double>(A, B), B.inverse());
}
Iso<double> relative_inverse(const Iso<double>& a, const Iso<double>& b) { return a * eigen_ext::relative_transform<double, 3>(a, b); }
}
namespace spec {
#define SPEC(S, X)                                                                                                                            \
    M6<S> adjoint_##X(const Iso<S>& T) { return ref::adjoint<S>(T); }                                                                         \
    M6<S> cov_frame_adj_##X(const M6<S>& C, const M6<S>& A) { return ref::congruence<S, 6>(A, C); }                                           \
    M6<S> cov_frame_##X(const M6<S>& C, const Iso<S>& T) { return ref::congruence<S, 6>(ref::adjoint<S>(T), C); }                             \
    Iso<S> rel_frame_##X(const Iso<S>& A, const Iso<S>& B) { return ref::compose<S>(ref::compose<S>(B, A), ref::inverse<S>(B)); }             \
    Iso<S> rel_frame3_##X(const Iso<S>& A, const Iso<S>& B, const Iso<S>& C) { return ref::compose<S>(ref::compose<S>(B, A), C); }            \
    V6<S> twist_frame_##X(const Iso<S>& T, const V6<S>& v) { return ref::adjoint<S>(T) * v; }                                                 \
    M6<S> compose_cov_cross_##X(const M6<S>& P, const M6<S>& R, const Iso<S>& T, const M6<S>& X) {                                            \
        const M6<S> A = ref::adjoint<S>(ref::inverse<S>(T));                                                                                  \
        const M6<S> XA = X * A.transpose();                                                                                                   \
        return ref::congruence<S, 6>(A, P) + R + XA + XA.transpose();                                                                         \
    }                                                                                                                                         \
    M6<S> compose_cov_##X(const M6<S>& P, const M6<S>& R, const Iso<S>& T) {                                                                  \
        return ref::congruence<S, 6>(ref::adjoint<S>(ref::inverse<S>(T)), P) + R;                                                             \
    }                                                                                                                                         \
    Iso<S> relative_##X(const Iso<S>& a, const Iso<S>& b) { return ref::compose<S>(ref::inverse<S>(a), b); }                                  \
    M3<S> rot_cov_##X(const M3<S>& C, const M3<S>& R) { return ref::congruence<S, 3>(R, C); }                                                 \
    M3<S> rot_cov_q_##X(const M3<S>& C, const Quat<S>& q) { return ref::congruence<S, 3>(q.toRotationMatrix(), C); }                          \
    M3<S> rot_cov_aa_##X(const M3<S>& C, const AA<S>& a) { return ref::congruence<S, 3>(a.toRotationMatrix(), C); }
SPEC(double, d)
SPEC(float, f)
Iso<double> rel_frame_round(const Iso<double>& A, const Iso<double>& B) { return A; }
Iso<double> relative_inverse(const Iso<double>& a, const Iso<double>& b) { return b; }
}
