#include "verif.hpp"
#include <eigen_ext/geometry.hpp>
#include <eigen_ext/precomputed_transform_components.hpp>
#include <eigen_gtsam/eigen_gtsam.hpp>
#include "eigen_gtsam/src/geometry.cpp"
template<typename S> using M4 = Eigen::Matrix<S, 4, 4>;
template<typename S> using V6 = Eigen::Matrix<S, 6, 1>;
template<typename S> using M3 = Eigen::Matrix<S, 3, 3>;
template<typename S> using V3 = Eigen::Matrix<S, 3, 1>;
template<typename S> using Iso = Eigen::Transform<S, 3, Eigen::Isometry>;
template<typename S> using Quat = Eigen::Quaternion<S>;
template<typename S> using Tr = Eigen::Translation<S, 3>;

namespace impl {
void pose_to_eigen(const gtsam::Pose3& p, M3<double>& R, V3<double>& t) {
    const Iso<double> T = eigen_gtsam::to_eigen<Iso<double>>(p);
    R = T.rotation(); t = T.translation();
}
void pose_to_gtsam(const Iso<double>& T, M3<double>& R, V3<double>& t) {
    const gtsam::Pose3 p = eigen_gtsam::to_gtsam<gtsam::Pose3>(T);
    R = p.rotation().matrix(); t = p.translation();
}
Iso<double> pose_round(const Iso<double>& T) { return eigen_gtsam::to_eigen<Iso<double>>(eigen_gtsam::to_gtsam<gtsam::Pose3>(T)); }
M3<double> rot_to_eigen(const gtsam::Rot3& r) { return eigen_gtsam::to_eigen<M3<double>>(r); }
M3<double> rot_to_gtsam(const Iso<double>& T) { const M3<double> R = T.matrix().block<3, 3>(0, 0); return eigen_gtsam::to_gtsam<gtsam::Rot3>(R).matrix(); }
M3<double> rot_expr_to_gtsam(const Iso<double>& T) { gtsam::Rot3 r; eigen_gtsam::to_gtsam(T.matrix().block<3, 3>(0, 0).transpose(), r); return r.matrix(); }
Iso<double> from_tq(const Tr<double>& t, const Quat<double>& q) { return eigen_ext::to_transform<double, 3>(t, q); }
Iso<double> from_vq(const V3<double>& t, const Quat<double>& q) { return eigen_ext::to_transform<double, 3>(t, q); }
Iso<double> from_vR(const V3<double>& t, const Iso<double>& R) { const M3<double> r = R.matrix().block<3, 3>(0, 0); return eigen_ext::to_transform<double, 3>(t, r); }
Iso<float> from_vq_f(const V3<float>& t, const Quat<float>& q) { return eigen_ext::to_transform<float, 3>(t, q); }
V6<double> rates(const Iso<double>& a, const Iso<double>& b, double dt) { return eigen_ext::linear_rates<double>(a, b, dt); }
V6<float> rates_f(const Iso<float>& a, const Iso<float>& b, float dt) { return eigen_ext::linear_rates<float>(a, b, dt); }
// constant rates over dt carry the first pose to the second
Iso<double> rates_reach(const Iso<double>& a, const Iso<double>& b, double dt) {
    const V6<double> r = eigen_ext::linear_rates<double>(a, b, dt);
    const V3<double> w = r.head<3>() * dt;
    const double ang = w.norm();
    Iso<double> d = Iso<double>::Identity();
    d.matrix().block<3, 3>(0, 0) = Eigen::AngleAxisd(ang, w / ang).toRotationMatrix();
    d.matrix().block<3, 1>(0, 3) = r.tail<3>() * dt;
    return a * d;
}
void pre_T(const Iso<double>& T, M4<double>& oT, M3<double>& oR, V3<double>& ot, V3<double>& orv, double& a, double& s, double& c) {
    const eigen_ext::PrecomputedTransformComponents<double> p(T.matrix());
    oT = p.T(); oR = p.R(); ot = p.t(); orv = p.r(); a = p.a(); s = p.sina(); c = p.cosa();
}
void pre_rt(const V3<double>& r, const V3<double>& t, M4<double>& oT, M3<double>& oR, V3<double>& ot, V3<double>& orv, double& a, double& s, double& c) {
    const eigen_ext::PrecomputedTransformComponents<double> p(r, t);
    oT = p.T(); oR = p.R(); ot = p.t(); orv = p.r(); a = p.a(); s = p.sina(); c = p.cosa();
}
}
namespace spec {
void pose_to_eigen(const gtsam::Pose3& p, M3<double>& R, V3<double>& t) {
    for (int i = 0; i < 3; ++i) {
        t(i) = p.matrix()(i, 3);
        for (int j = 0; j < 3; ++j) R(i, j) = p.matrix()(i, j);
    }
}
void pose_to_gtsam(const Iso<double>& T, M3<double>& R, V3<double>& t) {
    for (int i = 0; i < 3; ++i) {
        t(i) = T.matrix()(i, 3);
        for (int j = 0; j < 3; ++j) R(i, j) = T.matrix()(i, j);
    }
}
Iso<double> pose_round(const Iso<double>& T) { return T; }
M3<double> rot_to_eigen(const gtsam::Rot3& r) { return r.matrix(); }
M3<double> rot_to_gtsam(const Iso<double>& T) { M3<double> R; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R(i, j) = T.matrix()(i, j); return R; }
M3<double> rot_expr_to_gtsam(const Iso<double>& T) { M3<double> R; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R(i, j) = T.matrix()(j, i); return R; }
template<typename S> Iso<S> build(const V3<S>& t, const M3<S>& R) {
    Iso<S> T = Iso<S>::Identity();
    for (int i = 0; i < 3; ++i) {
        T.matrix()(i, 3) = t(i);
        for (int j = 0; j < 3; ++j) T.matrix()(i, j) = R(i, j);
    }
    return T;
}
template<typename S> Iso<S> relative(const Iso<S>& a, const Iso<S>& b) {
    M3<S> R; V3<S> t;
    for (int i = 0; i < 3; ++i) {
        S s = 0;
        for (int k = 0; k < 3; ++k) s += a.matrix()(k, i) * (b.matrix()(k, 3) - a.matrix()(k, 3));
        t(i) = s;
        for (int j = 0; j < 3; ++j) {
            S u = 0;
            for (int k = 0; k < 3; ++k) u += a.matrix()(k, i) * b.matrix()(k, j);
            R(i, j) = u;
        }
    }
    return build<S>(t, R);
}
template<typename S> V6<S> rate(const Iso<S>& a, const Iso<S>& b, S dt) {
    if (!(dt > 0)) throw std::runtime_error("dt");
    const Iso<S> d = relative<S>(a, b);
    M3<S> R;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) R(i, j) = d.matrix()(i, j);
    const Eigen::AngleAxis<S> aa(R);
    V6<S> r;
    for (int i = 0; i < 3; ++i) {
        r(i) = aa.angle() * aa.axis()(i) / dt;
        r(i + 3) = d.matrix()(i, 3) / dt;
    }
    return r;
}
Iso<double> from_tq(const Tr<double>& t, const Quat<double>& q) { return build<double>(t.translation(), q.toRotationMatrix()); }
Iso<double> from_vq(const V3<double>& t, const Quat<double>& q) { return build<double>(t, q.toRotationMatrix()); }
Iso<double> from_vR(const V3<double>& t, const Iso<double>& R) { return build<double>(t, R.matrix().block<3, 3>(0, 0)); }
Iso<float> from_vq_f(const V3<float>& t, const Quat<float>& q) { return build<float>(t, q.toRotationMatrix()); }
V6<double> rates(const Iso<double>& a, const Iso<double>& b, double dt) { return rate<double>(a, b, dt); }
V6<float> rates_f(const Iso<float>& a, const Iso<float>& b, float dt) { return rate<float>(a, b, dt); }
Iso<double> rates_reach(const Iso<double>& a, const Iso<double>& b, double dt) { verif::assume(dt > 0); return b; }
void pre_T(const Iso<double>& T, M4<double>& oT, M3<double>& oR, V3<double>& ot, V3<double>& orv, double& a, double& s, double& c) {
    for (int i = 0; i < 4; ++i)
        for (int j = 0; j < 4; ++j) oT(i, j) = T.matrix()(i, j);
    for (int i = 0; i < 3; ++i) {
        ot(i) = T.matrix()(i, 3);
        for (int j = 0; j < 3; ++j) oR(i, j) = T.matrix()(i, j);
    }
    const Eigen::AngleAxisd aa(oR);
    a = aa.angle();
    orv = a * aa.axis();
    s = std::sin(a);
    c = std::cos(a);
}
void pre_rt(const V3<double>& r, const V3<double>& t, M4<double>& oT, M3<double>& oR, V3<double>& ot, V3<double>& orv, double& a, double& s, double& c) {
    a = std::sqrt(r(0) * r(0) + r(1) * r(1) + r(2) * r(2));
    s = std::sin(a);
    c = std::cos(a);
    if (a == 0) {
        oR = M3<double>::Identity();
    } else {
        // Rodrigues' formula
        const double x = r(0) / a, y = r(1) / a, z = r(2) / a, k = 1 - c;
        oR(0, 0) = c + x * x * k; oR(0, 1) = x * y * k - z * s; oR(0, 2) = x * z * k + y * s;
        oR(1, 0) = y * x * k + z * s; oR(1, 1) = c + y * y * k; oR(1, 2) = y * z * k - x * s;
        oR(2, 0) = z * x * k - y * s; oR(2, 1) = z * y * k + x * s; oR(2, 2) = c + z * z * k;
    }
    ot = t;
    orv = r;
    oT = M4<double>::Identity();
    for (int i = 0; i < 3; ++i) {
        oT(i, 3) = t(i);
        for (int j = 0; j < 3; ++j) oT(i, j) = oR(i, j);
    }
}
}
