#include "verif.hpp"
#include "serpent/src/front_end/lidar/registration_covariance.cpp"
// stands for <pointcloud_tools/pclpointcloud2_utilities.hpp>, which needs ROS messages
#define POINTCLOUD_TOOLS_PCLPOINTCLOUD2_UTILITIES_HPP
#include <pcl/PCLPointCloud2.h>
namespace pct { pcl::PCLPointField& get_field(pcl::PCLPointCloud2& pointcloud, const std::string& name); }
#include "serpent/src/front_end/stereo/sensor_point_types.cpp"
using CM = serpent::CovarianceEstimationMethod; using CMo = serpent::CovarianceEstimationModel; using PM = serpent::PointCovarianceMethod; using ST = serpent::SensorType;

namespace impl {
CM to_method(const std::string& s) { return serpent::to_covariance_estimation_method(s); }
CMo to_model(const std::string& s) { return serpent::to_covariance_estimation_model(s); }
PM to_point_method(const std::string& s) { return serpent::to_point_covariance_method(s); }
ST to_sensor(const std::string& s) { return serpent::to_sensor_type(s); }
std::string method_name(CM m) { return serpent::to_string(m); }
std::string model_name(CMo m) { return serpent::to_string(m); }
std::string point_method_name(PM m) { return serpent::to_string(m); }
bool unit_vectors(CM m, PM p) { return serpent::requires_unit_vectors(m, p); }
bool unit_vectors_named(const std::string& m, const std::string& p) { return serpent::requires_unit_vectors(m, p); }
CM method_round(CM m) { return serpent::to_covariance_estimation_method(serpent::to_string(m)); }
CMo model_round(CMo m) { return serpent::to_covariance_estimation_model(serpent::to_string(m)); }
PM point_method_round(PM m) { return serpent::to_point_covariance_method(serpent::to_string(m)); }
}
namespace spec {
CM to_method(const std::string& s) {
    if (s == "CONSTANT") return CM::CONSTANT;
    if (s == "CENSI") return CM::CENSI;
    if (s == "LLS") return CM::LLS;
    throw std::runtime_error("refused");
}
CMo to_model(const std::string& s) {
    if (s == "POINT_TO_POINT_LINEARISED") return CMo::POINT_TO_POINT_LINEARISED;
    if (s == "POINT_TO_POINT_NONLINEAR") return CMo::POINT_TO_POINT_NONLINEAR;
    if (s == "POINT_TO_PLANE_LINEARISED") return CMo::POINT_TO_PLANE_LINEARISED;
    if (s == "POINT_TO_PLANE_NONLINEAR") return CMo::POINT_TO_PLANE_NONLINEAR;
    throw std::runtime_error("refused");
}
PM to_point_method(const std::string& s) {
    if (s == "CONSTANT") return PM::CONSTANT;
    if (s == "VOXEL_SIZE") return PM::VOXEL_SIZE;
    if (s == "RANGE") return PM::RANGE;
    if (s == "RANGE_BIAS") return PM::RANGE_BIAS;
    throw std::runtime_error("refused");
}
ST to_sensor(const std::string& s) {
    if (s == "OUSTER") return ST::OUSTER;
    if (s == "CUSTOM") return ST::CUSTOM;
    throw std::runtime_error("refused");
}
std::string method_name(CM m) {
    if (m == CM::CONSTANT) return "CONSTANT";
    if (m == CM::CENSI) return "CENSI";
    if (m == CM::LLS) return "LLS";
    throw std::runtime_error("refused");
}
std::string model_name(CMo m) {
    if (m == CMo::POINT_TO_POINT_LINEARISED) return "POINT_TO_POINT_LINEARISED";
    if (m == CMo::POINT_TO_POINT_NONLINEAR) return "POINT_TO_POINT_NONLINEAR";
    if (m == CMo::POINT_TO_PLANE_LINEARISED) return "POINT_TO_PLANE_LINEARISED";
    if (m == CMo::POINT_TO_PLANE_NONLINEAR) return "POINT_TO_PLANE_NONLINEAR";
    throw std::runtime_error("refused");
}
std::string point_method_name(PM m) {
    if (m == PM::CONSTANT) return "CONSTANT";
    if (m == PM::VOXEL_SIZE) return "VOXEL_SIZE";
    if (m == PM::RANGE) return "RANGE";
    if (m == PM::RANGE_BIAS) return "RANGE_BIAS";
    throw std::runtime_error("refused");
}
// unit vectors are needed only to model range noise in an estimated (not constant) covariance
bool unit_vectors(CM m, PM p) {
    if (m != CM::CONSTANT && m != CM::CENSI && m != CM::LLS) throw std::runtime_error("refused");
    if (p != PM::CONSTANT && p != PM::VOXEL_SIZE && p != PM::RANGE && p != PM::RANGE_BIAS) throw std::runtime_error("refused");
    return m != CM::CONSTANT && (p == PM::RANGE || p == PM::RANGE_BIAS);
}
bool unit_vectors_named(const std::string& m, const std::string& p) { return unit_vectors(to_method(m), to_point_method(p)); }
CM method_round(CM m) {
    if (m != CM::CONSTANT && m != CM::CENSI && m != CM::LLS) throw std::runtime_error("refused");
    return m;
}
CMo model_round(CMo m) {
    if (m != CMo::POINT_TO_POINT_LINEARISED && m != CMo::POINT_TO_POINT_NONLINEAR && m != CMo::POINT_TO_PLANE_LINEARISED && m != CMo::POINT_TO_PLANE_NONLINEAR)
        throw std::runtime_error("refused");
    return m;
}
PM point_method_round(PM m) {
    if (m != PM::CONSTANT && m != PM::VOXEL_SIZE && m != PM::RANGE && m != PM::RANGE_BIAS) throw std::runtime_error("refused");
    return m;
}
}
