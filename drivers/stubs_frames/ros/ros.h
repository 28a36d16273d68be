// Stands for the ROS client library as the body frames use it: parameters are read as a tree of values.
#pragma once
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
#include "ros/time.h"
namespace XmlRpc {
// An immutable parameter value.  What it holds is left open, except that a collection of named values above the deepest level
// has exactly one entry, so that a traversal is followed entry by entry and level by level.
struct Walk;
class XmlRpcValue {
    int value = 0;
    XmlRpcValue member(const std::string& name) const;
    XmlRpcValue item(int i) const;
    XmlRpcValue only() const;
    std::string name() const;
public:
    int levels = 0;
    // what the entries say: anything; a full transform; that they may be looked up; two aliases
    enum Mode { ANY, FIXED, LIVE, TWO };
    int mode = 0;
    enum Type { TypeInvalid, TypeBoolean, TypeInt, TypeDouble, TypeString, TypeDateTime, TypeBase64, TypeArray, TypeStruct };
    Type getType() const;
    int length() const;
    int size() const { return mode == TWO ? 2 : length(); }
    bool has(const std::string& name) const;
    bool hasMember(const std::string& name) const {
        if (mode == ANY) return has(name);
        if (name == "dynamic") return false;
        if (name == "aliases") return mode == TWO;
        if (name == "lookup_tf") return mode == LIVE;
        if (name == "translation" || name == "rotation" || name == "x" || name == "y" || name == "z") return mode == FIXED;
        return has(name);
    }
    XmlRpcValue operator[](const std::string& name) const {
        XmlRpcValue v = member(name);
        v.levels = levels;
        v.mode = mode;
        return v;
    }
    XmlRpcValue operator[](const char* name) const { return (*this)[std::string(name)]; }
    XmlRpcValue operator[](int i) const {
        XmlRpcValue v = item(i);
        v.mode = mode;
        return v;
    }
    operator bool() const;
    operator int() const;
    operator double() const;
    operator std::string() const;
    using const_iterator = Walk;
    const_iterator begin() const;
    const_iterator end() const;
};
struct Walk {
    struct Entry {
        std::string first;
        XmlRpcValue second;
        Entry(const std::string& n, const XmlRpcValue& v) : first(n), second(v) {}
    };
    int i;
    Entry entry;
    Walk(int i_, const std::string& n, const XmlRpcValue& v) : i(i_), entry(n, v) {}
    const Entry& operator*() const { return entry; }
    const Entry* operator->() const { return &entry; }
    Walk& operator++() { ++i; return *this; }
    bool operator!=(const Walk& o) const { return i != o.i; }
    bool operator==(const Walk& o) const { return i == o.i; }
};
inline Walk XmlRpcValue::begin() const {
    XmlRpcValue v = only();
    v.levels = levels - 1;
    v.mode = mode;
    return Walk(0, name(), v);
}
inline Walk XmlRpcValue::end() const {
    return Walk(levels > 0 ? 1 : 0, name(), only());
}
}
namespace ros {
class ServiceServer {};
class NodeHandle {
    std::string space;
public:
    NodeHandle(const std::string& ns = std::string()) : space(ns) {}
    template<typename T> T param(const std::string& name, const T& otherwise) const;
    template<typename T> bool getParam(const std::string& name, T& value) const;
    template<class T, class Req, class Res> ServiceServer advertiseService(const std::string& name, bool (T::*callback)(Req&, Res&), T* object) { return ServiceServer(); }
};
// the tree of frames: a body with one frame in it, which may be looked up
XmlRpc::XmlRpcValue tree_parameter(const NodeHandle& nh, const std::string& name);
template<> inline XmlRpc::XmlRpcValue NodeHandle::param(const std::string& name, const XmlRpc::XmlRpcValue&) const {
    XmlRpc::XmlRpcValue v = tree_parameter(*this, name);
    v.levels = 2;
    v.mode = XmlRpc::XmlRpcValue::LIVE;
    return v;
}
}
#define ROS_INFO_STREAM(x) ((void)0)
