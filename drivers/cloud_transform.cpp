#include "verif.hpp"
#include <pcl/point_cloud.h>
#include "pointcloud_tools/src/point_types.cpp"
#include <pointcloud_tools/pclpointcloud_transform.hpp>
#include <pointcloud_tools/pclpointcloud_utilities.hpp>
#include <serpent/front_end/lidar/transform_pointcloud.hpp>
using U = pcl::PointCloud<PointNormalUnit>; using C = pcl::PointCloud<PointNormalCovariance>;
using M4f = Eigen::Matrix4f; using M4d = Eigen::Matrix4d; using M3f = Eigen::Matrix3f;

namespace impl {
U unit(const U& in, U out, const M4f& T, bool all) { pct::transform_pointcloud_with_normals_and_unit_vectors(in, out, T, all); return out; }
U unit_d(const U& in, U out, const M4d& T, bool all) { pct::transform_pointcloud_with_normals_and_unit_vectors(in, out, T, all); return out; }
U unit_iso(const U& in, U out, const Eigen::Isometry3d& T, bool all) { pct::transform_pointcloud_with_normals_and_unit_vectors(in, out, T, all); return out; }
U unit_in_place(U io, const M4f& T, bool all) { pct::transform_pointcloud_with_normals_and_unit_vectors(io, io, T, all); return io; }
U unit_serpent(const U& in, U out, const M4d& T) { serpent::transform_pointcloud(in, out, T); return out; }
U unit_serpent_iso(const U& in, U out, const Eigen::Isometry3f& T) { serpent::transform_pointcloud(in, out, T); return out; }
C cov(const C& in, C out, const M4f& T, bool all) { pct::transform_pointcloud_with_normals_and_covariances(in, out, T, all); return out; }
C cov_d(const C& in, C out, const M4d& T, bool all) { pct::transform_pointcloud_with_normals_and_covariances(in, out, T, all); return out; }
C cov_iso(const C& in, C out, const Eigen::Isometry3d& T, bool all) { pct::transform_pointcloud_with_normals_and_covariances(in, out, T, all); return out; }
C cov_in_place(C io, const M4f& T, bool all) { pct::transform_pointcloud_with_normals_and_covariances(io, io, T, all); return io; }
C cov_serpent(const C& in, C out, const M4d& T) { serpent::transform_pointcloud(in, out, T); return out; }
C cov_serpent_iso(const C& in, C out, const Eigen::Isometry3f& T) { serpent::transform_pointcloud(in, out, T); return out; }
}
namespace spec {
bool finite(const PointNormalUnit& p) { return std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.z); }
bool finite(const PointNormalCovariance& p) { return std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.z); }
template<typename P> void move_point(P& p, const P& a, const M4f& T) {
    for (int i = 0; i < 3; ++i) p.data[i] = T(i, 0) * a.x + T(i, 1) * a.y + T(i, 2) * a.z + T(i, 3);
    p.data[3] = 1;
    for (int i = 0; i < 3; ++i) p.data_n[i] = T(i, 0) * a.normal_x + T(i, 1) * a.normal_y + T(i, 2) * a.normal_z;
    p.data_n[3] = 0;
}
void move(PointNormalUnit& p, const PointNormalUnit& a, const M4f& T) {
    move_point(p, a, T);
    for (int i = 0; i < 3; ++i) p.data_u[i] = T(i, 0) * a.ux + T(i, 1) * a.uy + T(i, 2) * a.uz;
    p.data_u[3] = 0;
}
void move(PointNormalCovariance& p, const PointNormalCovariance& a, const M4f& T) {
    move_point(p, a, T);
    const M3f R = T.block<3, 3>(0, 0);
    const M3f S = a.getCovarianceMatrix();
    M3f r;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            r(i, j) = 0;
            for (int k = 0; k < 3; ++k)
                for (int l = 0; l < 3; ++l) r(i, j) += R(i, k) * S(k, l) * R(j, l);
        }
    p.covariance_xx = r(0, 0); p.covariance_xy = r(0, 1); p.covariance_xz = r(0, 2);
    p.covariance_yy = r(1, 1); p.covariance_yz = r(1, 2); p.covariance_zz = r(2, 2);
}
template<typename Cloud> Cloud transform(const Cloud& in, const Cloud& out, const M4f& T, bool all) {
    Cloud r = in;
    if (!all) {
        r.points = out.points;
        r.points.resize(in.points.size());
    }
    for (std::size_t i = 0; i < in.points.size(); ++i)
        if (in.is_dense || finite(in.points[i])) move(r.points[i], in.points[i], T);
    return r;
}
U unit(const U& in, U out, const M4f& T, bool all) { return transform(in, out, T, all); }
U unit_d(const U& in, U out, const M4d& T, bool all) { return transform(in, out, T.cast<float>(), all); }
U unit_iso(const U& in, U out, const Eigen::Isometry3d& T, bool all) { return transform(in, out, T.matrix().cast<float>(), all); }
U unit_in_place(U io, const M4f& T, bool) { return transform(io, io, T, true); }
U unit_serpent(const U& in, U out, const M4d& T) { return transform(in, out, T.cast<float>(), true); }
U unit_serpent_iso(const U& in, U out, const Eigen::Isometry3f& T) { return transform(in, out, T.matrix(), true); }
C cov(const C& in, C out, const M4f& T, bool all) { return transform(in, out, T, all); }
C cov_d(const C& in, C out, const M4d& T, bool all) { return transform(in, out, T.cast<float>(), all); }
C cov_iso(const C& in, C out, const Eigen::Isometry3d& T, bool all) { return transform(in, out, T.matrix().cast<float>(), all); }
C cov_in_place(C io, const M4f& T, bool) { return transform(io, io, T, true); }
C cov_serpent(const C& in, C out, const M4d& T) { return transform(in, out, T.cast<float>(), true); }
C cov_serpent_iso(const C& in, C out, const Eigen::Isometry3f& T) { return transform(in, out, T.matrix(), true); }
}
