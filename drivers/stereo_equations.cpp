#include "verif.hpp"
#include "serpent/front_end/stereo/stereo_equations.hpp"
using V3 = Eigen::Vector3d; using M3 = Eigen::Matrix3d;
using V3f = Eigen::Vector3f; using M3f = Eigen::Matrix3f;

namespace impl {
V3 backproject(const V3& c, const M3& K, double b) { return serpent::stereo_backproject<double>(c, K, b); }
V3 project(const V3& p, const M3& K, double b) { return serpent::stereo_project<double>(p, K, b); }
V3f backproject_f(const V3f& c, const M3f& K, float b) { return serpent::stereo_backproject<float>(c, K, b); }
V3f project_f(const V3f& p, const M3f& K, float b) { return serpent::stereo_project<float>(p, K, b); }
// the two maps are inverse to each other
V3 round_trip_point(const V3& p, const M3& K, double b) { return serpent::stereo_backproject<double>(serpent::stereo_project<double>(p, K, b), K, b); }
V3 round_trip_pixel(const V3& c, const M3& K, double b) { return serpent::stereo_project<double>(serpent::stereo_backproject<double>(c, K, b), K, b); }
}

namespace spec {
template<typename S>
Eigen::Matrix<S, 3, 1> back(const Eigen::Matrix<S, 3, 1>& c, const Eigen::Matrix<S, 3, 3>& K, S b) {
    if (c(0) == c(1)) throw std::runtime_error("at infinity");
    // similar triangles: disparity / baseline = focal length / depth
    const S fx = K(0, 0), fy = K(1, 1), cx = K(0, 2), cy = K(1, 2);
    const S z = fx * b / (c(0) - c(1));
    Eigen::Matrix<S, 3, 1> p;
    p(0) = (c(0) - cx) * z / fx;
    p(1) = (c(2) - cy) * z / fy;
    p(2) = z;
    return p;
}
template<typename S>
Eigen::Matrix<S, 3, 1> proj(const Eigen::Matrix<S, 3, 1>& p, const Eigen::Matrix<S, 3, 3>& K, S b) {
    const S fx = K(0, 0), fy = K(1, 1), cx = K(0, 2), cy = K(1, 2);
    if (!(p(2) > 0)) throw std::runtime_error("not in front of the camera");
    Eigen::Matrix<S, 3, 1> c;
    c(0) = cx + fx * p(0) / p(2);
    c(1) = cx + fx * (p(0) - b) / p(2);
    c(2) = cy + fy * p(1) / p(2);
    return c;
}
V3 backproject(const V3& c, const M3& K, double b) { return back<double>(c, K, b); }
V3 project(const V3& p, const M3& K, double b) { return proj<double>(p, K, b); }
V3f backproject_f(const V3f& c, const M3f& K, float b) { return back<float>(c, K, b); }
V3f project_f(const V3f& p, const M3f& K, float b) { return proj<float>(p, K, b); }
V3 round_trip_point(const V3& p, const M3& K, double b) {
    verif::assume(K(0, 0) > 0 && K(1, 1) > 0 && b > 0 && p(2) > 0);
    return p;
}
V3 round_trip_pixel(const V3& c, const M3& K, double b) {
    verif::assume(K(0, 0) > 0 && K(1, 1) > 0 && b > 0 && c(0) > c(1));
    return c;
}
}
