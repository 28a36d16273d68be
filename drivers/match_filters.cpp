#include "verif.hpp"
#include "serpent/src/front_end/stereo/match_filters.cpp"

using Matches = std::vector<cv::DMatch>;
using Keypoints = std::vector<cv::KeyPoint>;
using Indices = std::vector<std::size_t>;

namespace impl {
Matches distance_static(const Matches& m, float th, Indices& idx) {
    return serpent::DistanceMatchFilter::filter(m, th, idx);
}
Matches distance_object(const Matches& m, float th, Indices& idx) {
    auto f = serpent::DistanceMatchFilter::create(th);
    auto r = f->filter(m);
    idx = f->indices();
    return r;
}
// the indices describe the last call only
Matches distance_twice(const Matches& m0, const Matches& m, float th, Indices& idx) {
    serpent::DistanceMatchFilter f{th};
    f.filter(m0);
    auto r = f.filter(m);
    idx = f.indices();
    return r;
}
Matches stereo_static(const Keypoints& q, const Keypoints& t, const Matches& m, float th, Indices& idx) {
    return serpent::StereoMatchFilter::filter(q, t, m, th, idx);
}
Matches stereo_object(const Keypoints& q, const Keypoints& t, const Matches& m, float th, Indices& idx) {
    auto f = serpent::StereoMatchFilter::create(th);
    auto r = f->filter(q, t, m);
    idx = f->indices();
    return r;
}
Matches stereo_set(const Keypoints& q, const Keypoints& t, const Matches& m0, const Matches& m, float th0, float th, Indices& idx, float& got) {
    serpent::StereoMatchFilter f{th0};
    f.filter(q, t, m0);
    f.set_vertical_pixel_threshold(th);
    got = f.vertical_pixel_threshold();
    auto r = f.filter(q, t, m);
    idx = f.indices();
    return r;
}
Matches range_object(const Keypoints& q, const Keypoints& t, const Matches& m, float fx, float b, float mx, float mn, Indices& idx) {
    auto f = serpent::StereoDistanceFilter::create(fx, b, mx, mn);
    auto r = f->filter(q, t, m);
    idx = f->indices();
    return r;
}
Matches range_twice(const Keypoints& q, const Keypoints& t, const Matches& m0, const Matches& m, float fx, float b, float mx, float mn, Indices& idx) {
    serpent::StereoDistanceFilter f{fx, b, mx, mn};
    f.filter(q, t, m0);
    auto r = f.filter(q, t, m);
    idx = f.indices();
    return r;
}
Matches range_set_fx(const Keypoints& q, const Keypoints& t, const Matches& m, float fx, float b, float mx, float mn, float fx2, Indices& idx) {
    serpent::StereoDistanceFilter f{fx, b, mx, mn};
    f.set_fx(fx2);
    auto r = f.filter(q, t, m);
    idx = f.indices();
    return r;
}
Matches range_set_baseline(const Keypoints& q, const Keypoints& t, const Matches& m, float fx, float b, float mx, float mn, float b2, Indices& idx) {
    serpent::StereoDistanceFilter f{fx, b, mx, mn};
    f.set_baseline(b2);
    auto r = f.filter(q, t, m);
    idx = f.indices();
    return r;
}
Matches range_set_both(const Keypoints& q, const Keypoints& t, const Matches& m, float fx, float b, float mx, float mn, float fx2, float b2, Indices& idx) {
    serpent::StereoDistanceFilter f{fx, b, mx, mn};
    f.set_baseline(b2);
    f.set_fx(fx2);
    auto r = f.filter(q, t, m);
    idx = f.indices();
    return r;
}
}

namespace spec {
// A filter keeps, in order, exactly the matches that satisfy its predicate and reports their positions.
template<typename Pred>
Matches keep(const Matches& m, Indices& idx, Pred pred) {
    Matches out;
    Indices where;
    for (std::size_t i = 0; i < m.size(); ++i) {
        if (pred(m[i])) {
            out.push_back(m[i]);
            where.push_back(i);
        }
    }
    idx = where;
    return out;
}
Matches by_distance(const Matches& m, float th, Indices& idx) {
    return keep(m, idx, [&](const cv::DMatch& x) { return !(x.distance > th); });
}
Matches by_rows(const Keypoints& q, const Keypoints& t, const Matches& m, float th, Indices& idx) {
    return keep(m, idx, [&](const cv::DMatch& x) {
        const auto& a = q.at(x.queryIdx).pt;
        const auto& b = t.at(x.trainIdx).pt;
        return b.x < a.x && !(a.y - b.y > th) && !(b.y - a.y > th);
    });
}
Matches by_range(const Keypoints& q, const Keypoints& t, const Matches& m, float fx, float b, float mx, float mn, Indices& idx) {
    return keep(m, idx, [&](const cv::DMatch& x) {
        const float d = q.at(x.queryIdx).pt.x - t.at(x.trainIdx).pt.x;
        if (!(d > 0.f)) return false;
        const float z = (fx * b) / d;
        return !(z < mn) && !(z > mx);
    });
}
Matches distance_static(const Matches& m, float th, Indices& idx) { return by_distance(m, th, idx); }
Matches distance_object(const Matches& m, float th, Indices& idx) { return by_distance(m, th, idx); }
Matches distance_twice(const Matches& m0, const Matches& m, float th, Indices& idx) { return by_distance(m, th, idx); }
Matches stereo_static(const Keypoints& q, const Keypoints& t, const Matches& m, float th, Indices& idx) { return by_rows(q, t, m, th, idx); }
Matches stereo_object(const Keypoints& q, const Keypoints& t, const Matches& m, float th, Indices& idx) { return by_rows(q, t, m, th, idx); }
Matches stereo_set(const Keypoints& q, const Keypoints& t, const Matches& m0, const Matches& m, float th0, float th, Indices& idx, float& got) {
    Indices first;
    by_rows(q, t, m0, th0, first);
    got = th;
    return by_rows(q, t, m, th, idx);
}
Matches range_object(const Keypoints& q, const Keypoints& t, const Matches& m, float fx, float b, float mx, float mn, Indices& idx) { return by_range(q, t, m, fx, b, mx, mn, idx); }
Matches range_twice(const Keypoints& q, const Keypoints& t, const Matches& m0, const Matches& m, float fx, float b, float mx, float mn, Indices& idx) {
    Indices first;
    by_range(q, t, m0, fx, b, mx, mn, first);
    return by_range(q, t, m, fx, b, mx, mn, idx);
}
Matches range_set_fx(const Keypoints& q, const Keypoints& t, const Matches& m, float fx, float b, float mx, float mn, float fx2, Indices& idx) { return by_range(q, t, m, fx2, b, mx, mn, idx); }
Matches range_set_baseline(const Keypoints& q, const Keypoints& t, const Matches& m, float fx, float b, float mx, float mn, float b2, Indices& idx) { return by_range(q, t, m, fx, b2, mx, mn, idx); }
Matches range_set_both(const Keypoints& q, const Keypoints& t, const Matches& m, float fx, float b, float mx, float mn, float fx2, float b2, Indices& idx) { return by_range(q, t, m, fx2, b2, mx, mn, idx); }
}
