// Stands for the ROS client library.
#pragma once
#include <string>
#include <sstream>
#include <vector>
#include <stdexcept>
#include <cmath>
#include "ros/time.h"
namespace ros {
class NodeHandle {
public:
    NodeHandle(const std::string& ns = std::string());
    template<typename T> T param(const std::string& name, const T& otherwise) const;
    template<typename T> bool getParam(const std::string& name, T& value) const;
    template<typename T> T getParamOr(const std::string& name) const;
};
}
#define ROS_INFO_STREAM(x) ((void)0)
#define ROS_WARN_STREAM(x) ((void)0)
#define ROS_ERROR_STREAM(x) ((void)0)
#define ROS_DEBUG_STREAM(x) ((void)0)
#define ROS_INFO(...) ((void)0)
#define ROS_WARN(...) ((void)0)
#define ROS_ERROR(...) ((void)0)
#define ROS_WARN_ONCE(...) ((void)0)
#define ROS_WARN_STREAM_ONCE(x) ((void)0)
