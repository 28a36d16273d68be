// Stands for the static broadcaster: what was sent is what it holds.
#pragma once
#include <vector>
#include "ros_messages.hpp"
namespace tf2_ros {
class StaticTransformBroadcaster {
public:
    std::vector<geometry_msgs::TransformStamped> sent;
    void sendTransform(const std::vector<geometry_msgs::TransformStamped>& transforms) { sent = transforms; }
};
}
