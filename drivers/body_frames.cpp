#include "verif.hpp"
#include <iomanip>
#include <iostream>
#include <cmath>
#include <limits>
#include "ros_messages.hpp"
#include "eigen_ros/src/geometry_msgs.cpp"
#include "eigen_ros/src/pose.cpp"
#include "eigen_ros/src/body_frames.cpp"
#include "eigen_ros/src/body_frames_tf.cpp"
using BF = eigen_ros::BodyFrames; using BT = eigen_ros::BodyFramesTf;
using Str = std::string; using Iso = Eigen::Isometry3d; using Time = ros::Time; using Node = XmlRpc::XmlRpcValue;
using V3 = Eigen::Vector3d; using M3 = Eigen::Matrix3d;

struct Tables {
    tf2_ros::Buffer tf_buffer;
    ros::Duration lookup_tf_timeout;
    Str body_frame_;
    std::unordered_map<Str, Str> frame_ids_map, frames_map;
    std::unordered_map<Str, bool> lookedup_tf_map, dynamic_map;
    std::unordered_map<Str, std::vector<Str>> aliases_map;
    std::unordered_map<Str, Iso> body_to_frame_map, frame_to_body_map;
};

namespace impl {
// reading
Str body(const BF& f) { return f.body_frame(); }
Str body_id(const BF& f) { return f.body_frame_id(); }
Str id_of(const BF& f, const Str& n) { return f.frame_id(n); }
Str frame_of(const BF& f, const Str& n) { return f.frame(n); }
bool known(const BF& f, const Str& n) { return f.has_frame(n); }
bool looked_up(const BF& f, const Str& n) { return f.lookedup_tf(n); }
bool dynamic(const BF& f, const Str& n) { return f.is_dynamic(n); }
std::vector<Str> aliases_of(const BF& f, const Str& n) { return f.aliases(n); }
std::vector<Str> all_frames(const BF& f) { return f.frames(); }
Iso to_frame(const BF& f, const Str& n, const Time t) { return f.body_to_frame(n, t); }
Iso to_body(const BF& f, const Str& n, const Time t) { return f.frame_to_body(n, t); }
Iso between(const BF& f, const Str& n, const Str& m, const Time t) { return f.frame_to_frame(n, m, t); }
// building
void register_strings(BF& f, const Str& n, const Str& i) { f.add_frame_strings(n, i); }
void register_transform(BF& f, const Str& n, const Iso& T) { f.add_frame_transforms(n, T); }
void register_transforms(BF& f, const Str& n, const Iso& T, const Iso& U) { f.add_frame_transforms(n, T, U); }
Iso from_node(BF& f, const Node& node, const Str& n, const Str& parent) { return f.transform_from_node(node, n, parent); }
// one entry of a frames table; one entry that itself has one nested entry, given or looked up; one entry with two aliases
void members(BF& f, const Node& nodes, const Iso& T, const Str& parent) { Node n = nodes; n.levels = 1; n.mode = Node::ANY; f.process_frames(n, T, parent); }
void members2(BF& f, const Node& nodes, const Iso& T, const Str& parent) { Node n = nodes; n.levels = 2; n.mode = Node::FIXED; f.process_frames(n, T, parent); }
void members_live(BF& f, const Node& nodes, const Iso& T, const Str& parent) { Node n = nodes; n.levels = 2; n.mode = Node::LIVE; f.process_frames(n, T, parent); }
void members_two(BF& f, const Node& nodes, const Iso& T, const Str& parent) { Node n = nodes; n.levels = 1; n.mode = Node::TWO; f.process_frames(n, T, parent); }
void construct(const Str& ns, Tables& o) {
    const BF f(ns);
    o.tf_buffer = f.tf_buffer;
    o.lookup_tf_timeout = f.lookup_tf_timeout;
    o.body_frame_ = f.body_frame_;
    o.frame_ids_map = f.frame_ids_map;
    o.frames_map = f.frames_map;
    o.lookedup_tf_map = f.lookedup_tf_map;
    o.dynamic_map = f.dynamic_map;
    o.aliases_map = f.aliases_map;
    o.body_to_frame_map = f.body_to_frame_map;
    o.frame_to_body_map = f.frame_to_body_map;
}
// broadcasting
bool answer(BT& b, eigen_ros::lookup_transform::Request& q, eigen_ros::lookup_transform::Response& r) { return b.lookup_transform_callback(q, r); }
}

// the reference tables: those of the class or stand-alone ones
namespace ref {
template<class F> Iso lookup(const F& f, const Str& n, const Str& m, const Time t) {
    const auto tf = f.tf_buffer.lookupTransform(f.frame_ids_map.at(n), f.frame_ids_map.at(m), t, f.lookup_tf_timeout).transform;
    Iso T = Iso::Identity();
    T.translation() = V3(tf.translation.x, tf.translation.y, tf.translation.z);
    T.linear() = Eigen::Quaterniond(tf.rotation.w, tf.rotation.x, tf.rotation.y, tf.rotation.z).toRotationMatrix();
    return T;
}
template<class F> void register_strings(F& f, const Str& n, const Str& i) {
    if (f.frame_ids_map.count(n) || f.frames_map.count(i)) throw std::runtime_error("known");
    f.frame_ids_map[n] = i;
    f.frames_map[i] = n;
}
template<class F> void register_transforms(F& f, const Str& n, const Iso& T, const Iso& U) {
    if (f.body_to_frame_map.count(n) || f.frame_to_body_map.count(n)) throw std::runtime_error("known");
    f.body_to_frame_map[n] = T;
    f.frame_to_body_map[n] = U;
}
template<class F> void register_transform(F& f, const Str& n, const Iso& T) {
    Iso U = Iso::Identity();
    U.linear() = T.linear().transpose();
    U.translation() = -(T.linear().transpose() * T.translation());
    register_transforms(f, n, T, U);
}
template<class F> Iso from_node(F& f, const Node& node, const Str& n, const Str& parent) {
    if (node.getType() != Node::TypeStruct || f.lookedup_tf_map.count(n)) throw std::runtime_error("node");
    const bool live = node.hasMember("lookup_tf") && static_cast<bool>(node["lookup_tf"]);
    f.lookedup_tf_map[n] = live;
    if (live) return lookup(f, parent, n, Time(0));
    double p[3] = {0, 0, 0};
    if (node.hasMember("translation")) {
        const Node& t = node["translation"];
        if (t.hasMember("x")) p[0] = t["x"];
        if (t.hasMember("y")) p[1] = t["y"];
        if (t.hasMember("z")) p[2] = t["z"];
    }
    double q[4] = {1, 0, 0, 0};
    if (node.hasMember("rotation")) {
        const Node& r = node["rotation"];
        q[0] = r["w"];
        q[1] = r["x"];
        q[2] = r["y"];
        q[3] = r["z"];
    }
    const double w = q[0], x = q[1], y = q[2], z = q[3], s = w * w + x * x + y * y + z * z;
    verif::assume(s > 0);
    M3 R;
    R << w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y),
         2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x),
         2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z;
    Iso T = Iso::Identity();
    T.linear() = R / s;
    T.translation() = V3(p[0], p[1], p[2]);
    return T;
}
struct Given { Iso T; Node nested; bool has; Str name; };
template<class F> Given entry(F& f, const Node& nodes, const Iso& T, const Str& parent) {
    const auto at = nodes.begin();
    Given g;
    g.has = false;
    g.T = T;
    g.name = at->first;
    const Node& node = at->second;
    g.nested = node;
    Str id = g.name;
    if (node.hasMember("frame_id")) id = static_cast<Str>(node["frame_id"]);
    register_strings(f, g.name, id);
    const bool moves = node.hasMember("dynamic") && static_cast<bool>(node["dynamic"]);
    if (f.dynamic_map.count(g.name)) throw std::runtime_error("known");
    f.dynamic_map[g.name] = moves;
    std::vector<Str> others;
    if (moves) {
        if (node.hasMember("aliases") || node.hasMember("lookup_tf") || node.hasMember("translation") || node.hasMember("rotation") || node.hasMember("frames"))
            throw std::runtime_error("fixed settings of a moving frame");
        if (f.lookedup_tf_map.count(g.name)) throw std::runtime_error("known");
        f.lookedup_tf_map[g.name] = false;
    } else {
        g.T = T * from_node(f, node, g.name, parent);
        register_transform(f, g.name, g.T);
        if (node.hasMember("aliases")) {
            const Node list = node["aliases"];
            if (list.getType() != Node::TypeArray) throw std::runtime_error("list");
            for (int i = 0; i < list.size(); i++) {
                const Node item = list[i];
                if (item.getType() != Node::TypeString) throw std::runtime_error("text");
                const Str other = static_cast<Str>(item);
                if (f.frames_map.count(other)) throw std::runtime_error("known");
                f.frames_map[other] = g.name;
                others.push_back(other);
            }
        }
    }
    if (f.aliases_map.count(id)) throw std::runtime_error("known");
    f.aliases_map[id] = others;
    if (!moves && node.hasMember("frames")) {
        g.has = true;
        g.nested = node["frames"];
    }
    return g;
}
template<class F> void nest(F& f, const Node& nodes, const Iso& T, const Str& parent, int levels, int mode) {
    Node n = nodes;
    n.levels = levels;
    n.mode = mode;
    const Given g = entry(f, n, T, parent);
    if (levels > 1 && g.has) {
        Node m = g.nested;
        m.levels = 1;
        m.mode = mode;
        entry(f, m, g.T, g.name);
    }
}
}

namespace spec {
Str body(const BF& f) { return f.body_frame_; }
Str body_id(const BF& f) { return f.frame_ids_map.at(f.body_frame_); }
Str id_of(const BF& f, const Str& n) { return f.frame_ids_map.at(n); }
Str frame_of(const BF& f, const Str& n) { return f.frames_map.at(n); }
bool known(const BF& f, const Str& n) { return f.frame_ids_map.count(n) == 1; }
bool looked_up(const BF& f, const Str& n) { return f.lookedup_tf_map.at(n); }
bool dynamic(const BF& f, const Str& n) { return f.dynamic_map.at(n); }
std::vector<Str> aliases_of(const BF& f, const Str& n) { return f.aliases_map.at(n); }
std::vector<Str> all_frames(const BF& f) {
    std::vector<Str> names;
    for (auto it = f.frame_ids_map.begin(); it != f.frame_ids_map.end(); ++it) names.push_back(it->first);
    return names;
}
Iso to_frame(const BF& f, const Str& n, const Time t) {
    if (f.dynamic_map.at(n)) return ref::lookup(f, f.body_frame_, n, t);
    return f.body_to_frame_map.at(n);
}
Iso to_body(const BF& f, const Str& n, const Time t) {
    if (f.dynamic_map.at(n)) return ref::lookup(f, n, f.body_frame_, t);
    return f.frame_to_body_map.at(n);
}
Iso between(const BF& f, const Str& n, const Str& m, const Time t) {
    // T_1^2 = T_1^B T_B^2
    const bool d = f.dynamic_map.at(n) || f.dynamic_map.at(m);
    if (d) return ref::lookup(f, n, m, t);
    return f.frame_to_body_map.at(n) * f.body_to_frame_map.at(m);
}
void members(BF& f, const Node& nodes, const Iso& T, const Str& parent) { ref::nest(f, nodes, T, parent, 1, Node::ANY); }
void members2(BF& f, const Node& nodes, const Iso& T, const Str& parent) { ref::nest(f, nodes, T, parent, 2, Node::FIXED); }
void members_live(BF& f, const Node& nodes, const Iso& T, const Str& parent) { ref::nest(f, nodes, T, parent, 2, Node::LIVE); }
void members_two(BF& f, const Node& nodes, const Iso& T, const Str& parent) { ref::nest(f, nodes, T, parent, 1, Node::TWO); }
void register_strings(BF& f, const Str& n, const Str& i) { ref::register_strings(f, n, i); }
void register_transform(BF& f, const Str& n, const Iso& T) { ref::register_transform(f, n, T); }
void register_transforms(BF& f, const Str& n, const Iso& T, const Iso& U) { ref::register_transforms(f, n, T, U); }
Iso from_node(BF& f, const Node& node, const Str& n, const Str& parent) { return ref::from_node(f, node, n, parent); }
void construct(const Str& ns, Tables& o) {
    ros::NodeHandle nh(ns);
    Tables f;
    f.lookup_tf_timeout = ros::Duration(nh.param<double>("lookup_tf_timeout", 1.0));
    Node all = nh.param<Node>("body_frames", Node());
    if (all.getType() != Node::TypeStruct || all.size() != 1) throw std::runtime_error("body frame");
    const auto at = all.begin();
    const Node& node = at->second;
    f.body_frame_ = at->first;
    Str id = at->first;
    if (node.hasMember("frame_id")) id = static_cast<Str>(node["frame_id"]);
    if (node.getType() != Node::TypeStruct) throw std::runtime_error("body frame");
    f.frame_ids_map[at->first] = id;
    f.frames_map[id] = at->first;
    f.body_to_frame_map[at->first] = Iso::Identity();
    f.frame_to_body_map[at->first] = Iso::Identity();
    f.lookedup_tf_map[at->first] = false;
    f.dynamic_map[at->first] = false;
    f.aliases_map[id] = std::vector<Str>();
    if (node.hasMember("frames")) ref::nest(f, node["frames"], Iso::Identity(), at->first, 1, Node::LIVE);
    o = f;
}
bool answer(BT& b, eigen_ros::lookup_transform::Request& q, eigen_ros::lookup_transform::Response& r) {
    const Iso T = between(b.body_frames, q.source_frame, q.target_frame, Time(0));
    r.transform.translation.x = T.translation().x();
    r.transform.translation.y = T.translation().y();
    r.transform.translation.z = T.translation().z();
    const Eigen::Quaterniond o(T.linear());
    r.transform.rotation.w = o.w();
    r.transform.rotation.x = o.x();
    r.transform.rotation.y = o.y();
    r.transform.rotation.z = o.z();
    return true;
}
}
