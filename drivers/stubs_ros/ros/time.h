// Stands for ROS time: an instant or a length of time, as a number of seconds.
#pragma once
#include <cstdint>
#include <ostream>
namespace ros {
struct Duration {
    double seconds;
    Duration() : seconds(0) {}
    explicit Duration(double s) : seconds(s) {}
    double toSec() const { return seconds; }
    int64_t toNSec() const { return static_cast<int64_t>(seconds * 1e9); }
    Duration operator-() const { return Duration(-seconds); }
    Duration operator+(const Duration& o) const { return Duration(seconds + o.seconds); }
    Duration operator-(const Duration& o) const { return Duration(seconds - o.seconds); }
    bool operator<(const Duration& o) const { return seconds < o.seconds; }
    bool operator>(const Duration& o) const { return seconds > o.seconds; }
    bool operator<=(const Duration& o) const { return seconds <= o.seconds; }
    bool operator>=(const Duration& o) const { return seconds >= o.seconds; }
    bool operator==(const Duration& o) const { return seconds == o.seconds; }
};
struct Time {
    double seconds;
    Time() : seconds(0) {}
    explicit Time(double s) : seconds(s) {}
    double toSec() const { return seconds; }
    Duration operator-(const Time& o) const { return Duration(seconds - o.seconds); }
    Time operator+(const Duration& o) const { return Time(seconds + o.seconds); }
    Time operator-(const Duration& o) const { return Time(seconds - o.seconds); }
    bool operator<(const Time& o) const { return seconds < o.seconds; }
    bool operator>(const Time& o) const { return seconds > o.seconds; }
    bool operator<=(const Time& o) const { return seconds <= o.seconds; }
    bool operator>=(const Time& o) const { return seconds >= o.seconds; }
    bool operator==(const Time& o) const { return seconds == o.seconds; }
    bool operator!=(const Time& o) const { return seconds != o.seconds; }
    bool isZero() const { return seconds == 0; }
    static Time now();
};
std::ostream& operator<<(std::ostream&, const Time&);
std::ostream& operator<<(std::ostream&, const Duration&);
}
