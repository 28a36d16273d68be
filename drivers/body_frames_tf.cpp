#include "verif.hpp"
#include <iomanip>
#include <iostream>
#include <cmath>
#include <limits>
#include "ros_messages.hpp"
#include "eigen_ros/src/geometry_msgs.cpp"
#include "eigen_ros/src/body_frames_tf.cpp"
using BT = eigen_ros::BodyFramesTf; using BF = eigen_ros::BodyFrames;
using Str = std::string; using Iso = Eigen::Isometry3d; using TS = geometry_msgs::TransformStamped;

// the frames are left open here (body_frames.cpp is about them): all that is known is that the namespace determines them
namespace eigen_ros {
BodyFrames::BodyFrames(const std::string& ns) : nh(ns), tf_listener(tf_buffer), lookup_tf_timeout(0), body_frame_(ns) {}
}

namespace impl {
std::vector<TS> broadcast(const Str& ns) {
    BT b(ns);
    return b.static_tf_broadcaster.sent;
}
}

namespace spec {
TS fixed(const Str& parent, const Str& child, const Iso& T) {
    TS t;
    t.header.stamp = ros::Time(0);
    t.header.frame_id = parent;
    t.child_frame_id = child;
    t.transform.translation.x = T.translation()(0);
    t.transform.translation.y = T.translation()(1);
    t.transform.translation.z = T.translation()(2);
    const Eigen::Quaterniond q(T.rotation());
    t.transform.rotation.w = q.w();
    t.transform.rotation.x = q.x();
    t.transform.rotation.y = q.y();
    t.transform.rotation.z = q.z();
    return t;
}
std::vector<TS> broadcast(const Str& ns) {
    const BF frames(ns);
    // free to ask anything
    frames.frame_to_body(frames.frame(frames.body_frame()));
    frames.frame_to_frame(frames.body_frame(), frames.body_frame());
    frames.has_frame(ns);
    std::vector<TS> sent;
    for (const Str& name : frames.frames()) {
        const Str id = frames.frame_id(name);
        if (id != frames.body_frame_id() && !frames.lookedup_tf(name) && !frames.is_dynamic(name))
            sent.push_back(fixed(frames.body_frame_id(), id, frames.body_to_frame(name)));
        for (const Str& other : frames.aliases(id)) sent.push_back(fixed(id, other, Iso::Identity()));
    }
    return sent;
}
}
