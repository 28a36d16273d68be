#include "verif.hpp"
#include <pcl/point_cloud.h>
#include "pointcloud_tools/src/point_types.cpp"
#include <pointcloud_tools/pclpointcloud_utilities.hpp>
struct TimedPoint { float x, y, z; float t; };
struct TimedPointD { float x, y, z; double t; };
using N = pcl::PointCloud<pcl::PointNormal>; using U = pcl::PointCloud<PointUnit>; using NU = pcl::PointCloud<PointNormalUnit>;
using T = pcl::PointCloud<TimedPoint>; using TD = pcl::PointCloud<TimedPointD>;
using X = Eigen::Matrix<float, 3, Eigen::Dynamic>;

namespace impl {
T seconds(T cloud) { pct::convert_ns_to_s(cloud); return cloud; }
TD seconds_d(TD cloud) { pct::convert_ns_to_s(cloud); return cloud; }
int normals(const N& cloud, float threshold) { return pct::check_normals(cloud, threshold); }
int normals_default(const N& cloud) { return pct::check_normals(cloud); }
int normals_unit(const NU& cloud, float threshold) { return pct::check_normals(cloud, threshold); }
X units(const U& cloud) { return pct::extract_unit_vectors(cloud); }
X normal_units(const NU& cloud) { return pct::extract_unit_vectors(cloud); }
}
namespace spec {
T seconds(T cloud) {
    for (std::size_t i = 0; i < cloud.points.size(); ++i) cloud.points[i].t = cloud.points[i].t / 1000000000.0;
    return cloud;
}
TD seconds_d(TD cloud) {
    for (std::size_t i = 0; i < cloud.points.size(); ++i) cloud.points[i].t = cloud.points[i].t / 1000000000.0;
    return cloud;
}
template<typename Cloud> int bad(const Cloud& cloud, float threshold) {
    int count = 0;
    for (std::size_t i = 0; i < cloud.points.size(); ++i) {
        const float x = cloud.points[i].normal_x, y = cloud.points[i].normal_y, z = cloud.points[i].normal_z;
        const float length = std::sqrt(x * x + y * y + z * z);
        if (length - 1 > threshold || 1 - length > threshold) ++count;
    }
    return count;
}
int normals(const N& cloud, float threshold) { return bad(cloud, threshold); }
int normals_default(const N& cloud) { return bad(cloud, 1e-6f); }
int normals_unit(const NU& cloud, float threshold) { return bad(cloud, threshold); }
template<typename Cloud> X unit(const Cloud& cloud) {
    X m(3, cloud.points.size());
    for (std::size_t i = 0; i < cloud.points.size(); ++i) {
        m(0, i) = cloud.points[i].ux;
        m(1, i) = cloud.points[i].uy;
        m(2, i) = cloud.points[i].uz;
    }
    return m;
}
X units(const U& cloud) { return unit(cloud); }
X normal_units(const NU& cloud) { return unit(cloud); }
}
