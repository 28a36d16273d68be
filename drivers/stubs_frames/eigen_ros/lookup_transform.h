// Stands for the generated service class.
#pragma once
#include "ros_messages.hpp"
namespace eigen_ros {
struct lookup_transformRequest { std::string source_frame; std::string target_frame; };
struct lookup_transformResponse { geometry_msgs::Transform transform; };
struct lookup_transform {
    using Request = lookup_transformRequest;
    using Response = lookup_transformResponse;
};
}
