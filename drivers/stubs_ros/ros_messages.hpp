// Stands for the generated ROS message classes: the same public fields over plain data.
#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <boost/shared_ptr.hpp>
#include "ros/time.h"
namespace std_msgs {
struct Header {
    uint32_t seq;
    ros::Time stamp;
    std::string frame_id;
    using Ptr = boost::shared_ptr<Header>;
    using ConstPtr = boost::shared_ptr<const Header>;
};
using HeaderPtr = boost::shared_ptr<Header>;
using HeaderConstPtr = boost::shared_ptr<const Header>;
}
namespace std_msgs {
struct MultiArrayDimension {
    std::string label;
    uint32_t size;
    uint32_t stride;
    using Ptr = boost::shared_ptr<MultiArrayDimension>;
    using ConstPtr = boost::shared_ptr<const MultiArrayDimension>;
};
using MultiArrayDimensionPtr = boost::shared_ptr<MultiArrayDimension>;
using MultiArrayDimensionConstPtr = boost::shared_ptr<const MultiArrayDimension>;
}
namespace std_msgs {
struct MultiArrayLayout {
    std::vector<MultiArrayDimension> dim;
    uint32_t data_offset;
    using Ptr = boost::shared_ptr<MultiArrayLayout>;
    using ConstPtr = boost::shared_ptr<const MultiArrayLayout>;
};
using MultiArrayLayoutPtr = boost::shared_ptr<MultiArrayLayout>;
using MultiArrayLayoutConstPtr = boost::shared_ptr<const MultiArrayLayout>;
}
namespace std_msgs {
struct Float64MultiArray {
    MultiArrayLayout layout;
    std::vector<double> data;
    using Ptr = boost::shared_ptr<Float64MultiArray>;
    using ConstPtr = boost::shared_ptr<const Float64MultiArray>;
};
using Float64MultiArrayPtr = boost::shared_ptr<Float64MultiArray>;
using Float64MultiArrayConstPtr = boost::shared_ptr<const Float64MultiArray>;
}
namespace geometry_msgs {
struct Point {
    double x;
    double y;
    double z;
    using Ptr = boost::shared_ptr<Point>;
    using ConstPtr = boost::shared_ptr<const Point>;
};
using PointPtr = boost::shared_ptr<Point>;
using PointConstPtr = boost::shared_ptr<const Point>;
}
namespace geometry_msgs {
struct Vector3 {
    double x;
    double y;
    double z;
    using Ptr = boost::shared_ptr<Vector3>;
    using ConstPtr = boost::shared_ptr<const Vector3>;
};
using Vector3Ptr = boost::shared_ptr<Vector3>;
using Vector3ConstPtr = boost::shared_ptr<const Vector3>;
}
namespace geometry_msgs {
struct Quaternion {
    double x;
    double y;
    double z;
    double w;
    using Ptr = boost::shared_ptr<Quaternion>;
    using ConstPtr = boost::shared_ptr<const Quaternion>;
};
using QuaternionPtr = boost::shared_ptr<Quaternion>;
using QuaternionConstPtr = boost::shared_ptr<const Quaternion>;
}
namespace geometry_msgs {
struct Pose {
    Point position;
    Quaternion orientation;
    using Ptr = boost::shared_ptr<Pose>;
    using ConstPtr = boost::shared_ptr<const Pose>;
};
using PosePtr = boost::shared_ptr<Pose>;
using PoseConstPtr = boost::shared_ptr<const Pose>;
}
namespace geometry_msgs {
struct PoseStamped {
    std_msgs::Header header;
    Pose pose;
    using Ptr = boost::shared_ptr<PoseStamped>;
    using ConstPtr = boost::shared_ptr<const PoseStamped>;
};
using PoseStampedPtr = boost::shared_ptr<PoseStamped>;
using PoseStampedConstPtr = boost::shared_ptr<const PoseStamped>;
}
namespace geometry_msgs {
struct PoseWithCovariance {
    Pose pose;
    boost::array<double, 36> covariance;
    using Ptr = boost::shared_ptr<PoseWithCovariance>;
    using ConstPtr = boost::shared_ptr<const PoseWithCovariance>;
};
using PoseWithCovariancePtr = boost::shared_ptr<PoseWithCovariance>;
using PoseWithCovarianceConstPtr = boost::shared_ptr<const PoseWithCovariance>;
}
namespace geometry_msgs {
struct PoseWithCovarianceStamped {
    std_msgs::Header header;
    PoseWithCovariance pose;
    using Ptr = boost::shared_ptr<PoseWithCovarianceStamped>;
    using ConstPtr = boost::shared_ptr<const PoseWithCovarianceStamped>;
};
using PoseWithCovarianceStampedPtr = boost::shared_ptr<PoseWithCovarianceStamped>;
using PoseWithCovarianceStampedConstPtr = boost::shared_ptr<const PoseWithCovarianceStamped>;
}
namespace geometry_msgs {
struct Transform {
    Vector3 translation;
    Quaternion rotation;
    using Ptr = boost::shared_ptr<Transform>;
    using ConstPtr = boost::shared_ptr<const Transform>;
};
using TransformPtr = boost::shared_ptr<Transform>;
using TransformConstPtr = boost::shared_ptr<const Transform>;
}
namespace geometry_msgs {
struct TransformStamped {
    std_msgs::Header header;
    std::string child_frame_id;
    Transform transform;
    using Ptr = boost::shared_ptr<TransformStamped>;
    using ConstPtr = boost::shared_ptr<const TransformStamped>;
};
using TransformStampedPtr = boost::shared_ptr<TransformStamped>;
using TransformStampedConstPtr = boost::shared_ptr<const TransformStamped>;
}
namespace geometry_msgs {
struct Twist {
    Vector3 linear;
    Vector3 angular;
    using Ptr = boost::shared_ptr<Twist>;
    using ConstPtr = boost::shared_ptr<const Twist>;
};
using TwistPtr = boost::shared_ptr<Twist>;
using TwistConstPtr = boost::shared_ptr<const Twist>;
}
namespace geometry_msgs {
struct TwistWithCovariance {
    Twist twist;
    boost::array<double, 36> covariance;
    using Ptr = boost::shared_ptr<TwistWithCovariance>;
    using ConstPtr = boost::shared_ptr<const TwistWithCovariance>;
};
using TwistWithCovariancePtr = boost::shared_ptr<TwistWithCovariance>;
using TwistWithCovarianceConstPtr = boost::shared_ptr<const TwistWithCovariance>;
}
namespace nav_msgs {
struct Odometry {
    std_msgs::Header header;
    std::string child_frame_id;
    geometry_msgs::PoseWithCovariance pose;
    geometry_msgs::TwistWithCovariance twist;
    using Ptr = boost::shared_ptr<Odometry>;
    using ConstPtr = boost::shared_ptr<const Odometry>;
};
using OdometryPtr = boost::shared_ptr<Odometry>;
using OdometryConstPtr = boost::shared_ptr<const Odometry>;
}
namespace nav_msgs {
struct Path {
    std_msgs::Header header;
    std::vector<geometry_msgs::PoseStamped> poses;
    using Ptr = boost::shared_ptr<Path>;
    using ConstPtr = boost::shared_ptr<const Path>;
};
using PathPtr = boost::shared_ptr<Path>;
using PathConstPtr = boost::shared_ptr<const Path>;
}
namespace sensor_msgs {
struct Imu {
    std_msgs::Header header;
    geometry_msgs::Quaternion orientation;
    boost::array<double, 9> orientation_covariance;
    geometry_msgs::Vector3 angular_velocity;
    boost::array<double, 9> angular_velocity_covariance;
    geometry_msgs::Vector3 linear_acceleration;
    boost::array<double, 9> linear_acceleration_covariance;
    using Ptr = boost::shared_ptr<Imu>;
    using ConstPtr = boost::shared_ptr<const Imu>;
};
using ImuPtr = boost::shared_ptr<Imu>;
using ImuConstPtr = boost::shared_ptr<const Imu>;
}
namespace sensor_msgs {
struct RegionOfInterest {
    uint32_t x_offset;
    uint32_t y_offset;
    uint32_t height;
    uint32_t width;
    uint8_t do_rectify;
    using Ptr = boost::shared_ptr<RegionOfInterest>;
    using ConstPtr = boost::shared_ptr<const RegionOfInterest>;
};
using RegionOfInterestPtr = boost::shared_ptr<RegionOfInterest>;
using RegionOfInterestConstPtr = boost::shared_ptr<const RegionOfInterest>;
}
namespace sensor_msgs {
struct CameraInfo {
    std_msgs::Header header;
    uint32_t height;
    uint32_t width;
    std::string distortion_model;
    std::vector<double> D;
    boost::array<double, 9> K;
    boost::array<double, 9> R;
    boost::array<double, 12> P;
    uint32_t binning_x;
    uint32_t binning_y;
    RegionOfInterest roi;
    using Ptr = boost::shared_ptr<CameraInfo>;
    using ConstPtr = boost::shared_ptr<const CameraInfo>;
};
using CameraInfoPtr = boost::shared_ptr<CameraInfo>;
using CameraInfoConstPtr = boost::shared_ptr<const CameraInfo>;
}
namespace sensor_msgs {
struct Image {
    std_msgs::Header header;
    uint32_t height;
    uint32_t width;
    std::string encoding;
    uint8_t is_bigendian;
    uint32_t step;
    std::vector<uint8_t> data;
    using Ptr = boost::shared_ptr<Image>;
    using ConstPtr = boost::shared_ptr<const Image>;
};
using ImagePtr = boost::shared_ptr<Image>;
using ImageConstPtr = boost::shared_ptr<const Image>;
}
namespace statistics_msgs {
struct Covariance {
    uint64_t dimensions;
    std::vector<double> matrix;
    using Ptr = boost::shared_ptr<Covariance>;
    using ConstPtr = boost::shared_ptr<const Covariance>;
};
using CovariancePtr = boost::shared_ptr<Covariance>;
using CovarianceConstPtr = boost::shared_ptr<const Covariance>;
}
namespace statistics_msgs {
struct CovarianceFloat32 {
    uint64_t dimensions;
    std::vector<float> matrix;
    using Ptr = boost::shared_ptr<CovarianceFloat32>;
    using ConstPtr = boost::shared_ptr<const CovarianceFloat32>;
};
using CovarianceFloat32Ptr = boost::shared_ptr<CovarianceFloat32>;
using CovarianceFloat32ConstPtr = boost::shared_ptr<const CovarianceFloat32>;
}
namespace statistics_msgs {
struct CovarianceStamped {
    std_msgs::Header header;
    Covariance covariance;
    using Ptr = boost::shared_ptr<CovarianceStamped>;
    using ConstPtr = boost::shared_ptr<const CovarianceStamped>;
};
using CovarianceStampedPtr = boost::shared_ptr<CovarianceStamped>;
using CovarianceStampedConstPtr = boost::shared_ptr<const CovarianceStamped>;
}
namespace statistics_msgs {
struct CovarianceFloat32Stamped {
    std_msgs::Header header;
    CovarianceFloat32 covariance;
    using Ptr = boost::shared_ptr<CovarianceFloat32Stamped>;
    using ConstPtr = boost::shared_ptr<const CovarianceFloat32Stamped>;
};
using CovarianceFloat32StampedPtr = boost::shared_ptr<CovarianceFloat32Stamped>;
using CovarianceFloat32StampedConstPtr = boost::shared_ptr<const CovarianceFloat32Stamped>;
}
namespace statistics_msgs {
struct SummaryStatistics {
    std::string label;
    double min;
    double max;
    double mean;
    double variance;
    uint64_t count;
    using Ptr = boost::shared_ptr<SummaryStatistics>;
    using ConstPtr = boost::shared_ptr<const SummaryStatistics>;
};
using SummaryStatisticsPtr = boost::shared_ptr<SummaryStatistics>;
using SummaryStatisticsConstPtr = boost::shared_ptr<const SummaryStatistics>;
}
namespace statistics_msgs {
struct SummaryStatisticsArray {
    std_msgs::Header header;
    std::vector<SummaryStatistics> statistics;
    using Ptr = boost::shared_ptr<SummaryStatisticsArray>;
    using ConstPtr = boost::shared_ptr<const SummaryStatisticsArray>;
};
using SummaryStatisticsArrayPtr = boost::shared_ptr<SummaryStatisticsArray>;
using SummaryStatisticsArrayConstPtr = boost::shared_ptr<const SummaryStatisticsArray>;
}
namespace statistics_msgs {
struct SummaryStatisticsStamped {
    std_msgs::Header header;
    SummaryStatistics statistics;
    using Ptr = boost::shared_ptr<SummaryStatisticsStamped>;
    using ConstPtr = boost::shared_ptr<const SummaryStatisticsStamped>;
};
using SummaryStatisticsStampedPtr = boost::shared_ptr<SummaryStatisticsStamped>;
using SummaryStatisticsStampedConstPtr = boost::shared_ptr<const SummaryStatisticsStamped>;
}
