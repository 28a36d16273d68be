// Stands for the tf2 lookup: an uninterpreted function of the two frame ids, the time and the patience.
#pragma once
#include <string>
#include "ros_messages.hpp"
#include "ros/ros.h"
namespace tf2_ros {
class Buffer {
    int tree;
public:
    Buffer() : tree(0) {}
    geometry_msgs::TransformStamped lookupTransform(const std::string& target, const std::string& source, const ros::Time& t, const ros::Duration& patience) const;
};
class TransformListener {
public:
    TransformListener(Buffer&) {}
};
}
