#include "verif.hpp"
#include "pointcloud_tools/src/point_types.cpp"
#include <pointcloud_tools/registration_utilities.hpp>
using PU = PointNormalUnit;
using R = pcl::Registration<PU, PU, float>;
using RD = pcl::Registration<PU, PU, double>;
using M6 = Eigen::Matrix<double, 6, 6>;
using M4 = Eigen::Matrix<double, 4, 4>;

namespace verif {
pcl::Correspondence pair(int i);
}
namespace pct {
template<> pcl::CorrespondencesPtr compute_registration_correspondences<PU, PU, float>(pcl::Registration<PU, PU, float>&, const bool) {
    auto c = std::make_shared<pcl::Correspondences>();
    c->push_back(verif::pair(0));
    c->push_back(verif::pair(1));
    return c;
}
template<> pcl::CorrespondencesPtr compute_registration_correspondences<PU, PU, double>(pcl::Registration<PU, PU, double>&, const bool) {
    auto c = std::make_shared<pcl::Correspondences>();
    c->push_back(verif::pair(0));
    c->push_back(verif::pair(1));
    return c;
}
}
#include <serpent/front_end/lidar/registration_covariance.hpp>

// second derivatives of some residual: unknown functions of the pair of points and the transform
M6 xx(const PU& p, const PU& q, const M4& T);
M6 zx(const PU& p, const PU& q, const M4& T);
struct Model {
    using PointSource = PU;
    using PointTarget = PU;
    static bool process_correspondence(const PU& p, const PU& q, const eigen_ext::PrecomputedTransformComponents<double>& tf, M6& a) {
        a = xx(p, q, tf.T());
        return true;
    }
    static bool process_correspondence(const PU& p, const PU& q, const eigen_ext::PrecomputedTransformComponents<double>& tf, M6& a, M6& b) {
        a = xx(p, q, tf.T());
        b = zx(p, q, tf.T());
        return true;
    }
};

namespace impl {
M6 censi_iid(R& r, double v, int& n) { return serpent::censi_iid_covariance<Model, float>(r, v, n); }
M6 censi_iid_d(RD& r, double v, int& n) { return serpent::censi_iid_covariance<Model, double>(r, v, n); }
M6 censi_range(R& r, double v, int& n) { return serpent::censi_range_covariance<Model, float>(r, v, n); }
M6 censi_range_bias(R& r, double v, double b, int& n) { return serpent::censi_range_bias_covariance<Model, float>(r, v, b, n); }
M6 lls(R& r, double v, int& n) { return serpent::lls_iid_covariance<Model, float>(r, v, n); }
M6 lls_d(RD& r, double v, int& n) { return serpent::lls_iid_covariance<Model, double>(r, v, n); }
}
namespace spec {
template<typename Reg> struct Pairs {
    PU p[2], q[2];
    M6 d[2], H;
    Pairs(Reg& r) {
        const M4 T = r.getFinalTransformation().template cast<double>();
        for (int i = 0; i < 2; ++i) {
            p[i] = r.getInputSource()->at(verif::pair(i).index_query);
            q[i] = r.getInputTarget()->at(verif::pair(i).index_match);
            d[i] = zx(p[i], q[i], T);
        }
        H = M6::Zero();
        for (int i = 0; i < 2; ++i) H += xx(p[i], q[i], T);
    }
};
template<typename Reg> M6 iid(Reg& r, double v, int& n) {
    n = 2;
    Pairs<Reg> s(r);
    M6 m = M6::Zero();
    for (int i = 0; i < 2; ++i) m += s.d[i] * s.d[i].transpose();
    const M6 I = s.H.inverse();
    return v * (I * m * I);
}
M6 censi_iid(R& r, double v, int& n) { return iid(r, v, n); }
M6 censi_iid_d(RD& r, double v, int& n) { return iid(r, v, n); }
M6 censi_range(R& r, double v, int& n) {
    n = 2;
    Pairs<R> s(r);
    M6 m = M6::Zero();
    for (int i = 0; i < 2; ++i) {
        M6 z = M6::Zero();
        const double u[3] = {s.p[i].ux, s.p[i].uy, s.p[i].uz}, w[3] = {s.q[i].ux, s.q[i].uy, s.q[i].uz};
        for (int a = 0; a < 3; ++a)
            for (int b = 0; b < 3; ++b) {
                z(a, b) = v * u[a] * u[b];
                z(a + 3, b + 3) = v * w[a] * w[b];
            }
        m += s.d[i] * z * s.d[i].transpose();
    }
    const M6 I = s.H.inverse();
    return I * m * I;
}
// one bias common to all ranges, and noise on each coordinate
M6 censi_range_bias(R& r, double v, double b, int& n) {
    n = 2;
    Pairs<R> s(r);
    double u[12];
    for (int i = 0; i < 2; ++i) {
        u[6 * i] = s.p[i].ux, u[6 * i + 1] = s.p[i].uy, u[6 * i + 2] = s.p[i].uz;
        u[6 * i + 3] = s.q[i].ux, u[6 * i + 4] = s.q[i].uy, u[6 * i + 5] = s.q[i].uz;
    }
    M6 m = M6::Zero();
    for (int a = 0; a < 6; ++a)
        for (int c = 0; c < 6; ++c) {
            double along = 0, across = 0;
            for (int k = 0; k < 12; ++k) {
                along += s.d[k / 6](a, k % 6) * u[k];
                across += s.d[k / 6](c, k % 6) * u[k];
                m(a, c) += v * s.d[k / 6](a, k % 6) * u[k] * u[k] * s.d[k / 6](c, k % 6);
            }
            m(a, c) += b * along * across;
        }
    const M6 I = s.H.inverse();
    return I * m * I;
}
template<typename Reg> M6 lls_of(Reg& r, double v, int& n) {
    n = 2;
    return v * Pairs<Reg>(r).H.inverse();
}
M6 lls(R& r, double v, int& n) { return lls_of(r, v, n); }
M6 lls_d(RD& r, double v, int& n) { return lls_of(r, v, n); }
}
