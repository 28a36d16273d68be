#include "verif.hpp"
#include <opencv2/features2d.hpp>
#include <opencv2/video/tracking.hpp>
#include "serpent/src/front_end/stereo/window_functions.cpp"
#include "serpent/src/front_end/stereo/stereo_cost_functions.cpp"
#include "serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp"
#include "serpent/src/front_end/stereo/match_filters.cpp"
#include "serpent/src/front_end/stereo/stereo_feature_tracker.cpp"
using M = cv::Mat; using K = cv::KeyPoint; using Ks = std::vector<cv::KeyPoint>; using P2 = cv::Point2f; using P2s = std::vector<cv::Point2f>;
using Tracker = serpent::StereoFeatureTracker; using Data = Tracker::LRKeyPointMatches; using Stats = Tracker::Statistics;
using Ids = std::vector<int>; using Fs = std::vector<float>;

void cv::KeyPoint::convert(const std::vector<KeyPoint>& keypoints, std::vector<Point2f>& points, const std::vector<int>&) {
    points.resize(keypoints.size());
    for (std::size_t i = 0; i < keypoints.size(); ++i) points[i] = keypoints[i].pt;
}

// an unknown keypoint detector, an unknown optical flow and an unknown stereo matcher
Ks detected(const M& image);
P2 moved(const M& from, const M& to, float x, float y);
uchar followed(const M& from, const M& to, float x, float y);
int partner(const K& k, const Ks& others, const M& l, const M& r);
double price(const K& k, const Ks& others, const M& l, const M& r);
struct Detector : cv::Feature2D {
    void detect(cv::InputArray image, Ks& keypoints, cv::InputArray) override { keypoints = detected(image.getMat()); }
};
struct Flow : cv::SparseOpticalFlow {
    void calc(cv::InputArray from, cv::InputArray to, cv::InputArray points, cv::InputOutputArray next, cv::OutputArray status, cv::OutputArray) override {
        const M p = points.getMat(), f = from.getMat(), t = to.getMat();
        P2s n(p.rows);
        std::vector<uchar> s(p.rows);
        for (int i = 0; i < p.rows; ++i) {
            const P2& q = p.at<P2>(i);
            n[i] = moved(f, t, q.x, q.y);
            s[i] = followed(f, t, q.x, q.y);
        }
        next.assign(M(n));
        status.assign(M(s));
    }
};
struct Matcher : serpent::StereoKeyPointMatcher {
    Matcher() : serpent::StereoKeyPointMatcher(cv::Size(1, 1)) {}
    serpent::MatchingCostFunction generate_cost_function(const M&, const cv::Point2i&) const override { return {}; }
    int keypoint_index_in_other_image(const K& k, const Ks& others, const M& l, const M& r, const bool right, double& cost) const override {
        const int j = partner(k, others, l, r);
        cost = price(k, others, l, r);
        return right && j < static_cast<int>(others.size()) ? j : -1;
    }
};

// what a tracker remembers of the frame before: one match per keypoint pair, with its identity
struct Track {
    int id;
    float distance;
    K keypoints[2];
};
struct Before {
    M images[2];
    std::vector<Track> tracks;
    unsigned short frame;
    int next;
};
struct Options {
    float separation;
    double cost;
    float vertical;
    float fx, baseline, nearest, farthest;
};
struct Result {
    Data data;
    int frame;
};
namespace setup {
void remember(Tracker& t, const Before& b) {
    t.frame_number_ = b.frame;
    t.next_match_id = b.next;
    t.previous_images[0] = b.images[0];
    t.previous_images[1] = b.images[1];
    for (std::size_t i = 0; i < b.tracks.size(); ++i) {
        const Track& k = b.tracks[i];
        t.previous_track_data.keypoints[0].push_back(k.keypoints[0]);
        t.previous_track_data.keypoints[1].push_back(k.keypoints[1]);
        t.previous_track_data.match_ids.push_back(k.id);
        t.previous_track_data.matches.emplace_back(static_cast<int>(i), static_cast<int>(i), k.distance);
    }
}
}

using Filter = serpent::StereoDistanceFilter;
struct Summary {
    Data data;
    int frame, max_id, oldest;
    unsigned long tracked_kp[2], tracked, extracted[2], filtered[2], fresh, total;
    Ids ids;
};
namespace setup {
Tracker tracker(const Options& o) {
    return Tracker(cv::makePtr<Detector>(), cv::makePtr<Flow>(), serpent::StereoMatchFilter::create(o.vertical), cv::makePtr<Matcher>(), o.separation, o.cost);
}
Summary summary(Tracker& t, const M& l, const M& r) {
    Stats s;
    Summary out;
    out.data = t.process(l, r, s);
    out.frame = s.frame_number;
    out.max_id = s.max_match_id;
    out.oldest = s.longest_tracked_match_id;
    for (int i = 0; i < 2; ++i) {
        out.tracked_kp[i] = s.tracked_kp_count[i];
        out.extracted[i] = s.extracted_kp_count[i];
        out.filtered[i] = s.filtered_extracted_kp_count[i];
    }
    out.tracked = s.tracked_match_count;
    out.fresh = s.new_match_count;
    out.total = s.total_match_count;
    out.ids = s.match_ids;
    return out;
}
}
namespace impl {
Result first(const Options& o, const M& l, const M& r) {
    Tracker t = setup::tracker(o);
    Result out;
    out.data = t.process(l, r);
    out.frame = t.frame_number();
    return out;
}
Result next(const Options& o, const Before& b, const M& l, const M& r) {
    Tracker t = setup::tracker(o);
    setup::remember(t, b);
    Result out;
    out.data = t.process(l, r);
    out.frame = t.frame_number();
    return out;
}
Result first_ranged(const Options& o, const M& l, const M& r) {
    Tracker t(cv::makePtr<Detector>(), cv::makePtr<Flow>(), serpent::StereoMatchFilter::create(o.vertical), cv::makePtr<Matcher>(), o.separation, o.cost,
            Filter::create(o.fx, o.baseline, o.farthest, o.nearest));
    Result out;
    out.data = t.process(l, r);
    out.frame = t.frame_number();
    return out;
}
Result next_ranged(const Options& o, const Before& b, const M& l, const M& r) {
    Tracker t = setup::tracker(o);
    t.set_stereo_distance_filter(Filter::create(o.fx, o.baseline, o.farthest, o.nearest));
    setup::remember(t, b);
    Result out;
    out.data = t.process(l, r);
    out.frame = t.frame_number();
    return out;
}
Summary first_summary(const Options& o, const M& l, const M& r) {
    Tracker t = setup::tracker(o);
    return setup::summary(t, l, r);
}
Summary next_summary(const Options& o, const Before& b, const M& l, const M& r) {
    Tracker t = setup::tracker(o);
    setup::remember(t, b);
    return setup::summary(t, l, r);
}
Before remembered(const Options& o, const Before& b, const M& l, const M& r) {
    Tracker t = setup::tracker(o);
    setup::remember(t, b);
    const Data d = t.process(l, r);
    Before out;
    out.images[0] = t.previous_images[0];
    out.images[1] = t.previous_images[1];
    out.frame = t.frame_number_;
    out.next = t.next_match_id;
    for (std::size_t i = 0; i < t.previous_track_data.matches.size(); ++i) {
        Track k;
        k.id = t.previous_track_data.match_ids[i];
        k.distance = t.previous_track_data.matches[i].distance;
        k.keypoints[0] = t.previous_track_data.keypoints[0][t.previous_track_data.matches[i].queryIdx];
        k.keypoints[1] = t.previous_track_data.keypoints[1][t.previous_track_data.matches[i].trainIdx];
        out.tracks.push_back(k);
    }
    return out;
}
int frame_before_any(const Options& o) {
    Tracker t = setup::tracker(o);
    return t.frame_number();
}
}
namespace ref {
bool tracked(const Before& b, const M& l, const M& r, std::size_t i) {
    const P2 &p = b.tracks[i].keypoints[0].pt, &q = b.tracks[i].keypoints[1].pt;
    return followed(b.images[0], l, p.x, p.y) == 1 && followed(b.images[1], r, q.x, q.y) == 1;
}
K carried(const K& k, const M& from, const M& to) {
    return K(moved(from, to, k.pt.x, k.pt.y), k.size, k.angle, k.response, k.octave, k.class_id);
}
bool rectified(const K& l, const K& r, float vertical) { return l.pt.x > r.pt.x && std::abs(l.pt.y - r.pt.y) <= vertical; }
bool in_range(const Options& o, const K& l, const K& r) {
    if (!(l.pt.x > r.pt.x)) return false;
    const float depth = o.fx * o.baseline / (l.pt.x - r.pt.x);
    return depth >= o.nearest && depth <= o.farthest;
}
void add(Data& d, const K& l, const K& r, float distance, int id) {
    const int n = d.matches.size();
    d.matches.push_back(cv::DMatch(n, n, distance));
    d.keypoints[0].push_back(l);
    d.keypoints[1].push_back(r);
    d.match_ids.push_back(id);
}
// detected keypoints that are not within the separation of a keypoint that is still followed
Ks fresh(const Options& o, const Before& b, const M& l, const M& r, int side) {
    const Ks all = detected(side == 0 ? l : r);
    const M &from = b.images[side], &to = side == 0 ? l : r;
    Ks out;
    for (std::size_t k = 0; k < all.size(); ++k) {
        bool near = false;
        for (std::size_t i = 0; i < b.tracks.size(); ++i) {
            const K c = carried(b.tracks[i].keypoints[side], from, to);
            const float dx = all[k].pt.x - c.pt.x, dy = all[k].pt.y - c.pt.y;
            const double dd = static_cast<double>(dx) * dx + static_cast<double>(dy) * dy;
            if (tracked(b, l, r, i) && dd <= static_cast<float>(static_cast<double>(o.separation) * o.separation)) near = true;
        }
        if (!near) out.push_back(all[k]);
    }
    return out;
}
void add_tracked(const Options& o, const Before& b, const M& l, const M& r, bool ranged, Data& d) {
    for (std::size_t i = 0; i < b.tracks.size(); ++i) {
        const K p = carried(b.tracks[i].keypoints[0], b.images[0], l), q = carried(b.tracks[i].keypoints[1], b.images[1], r);
        if (tracked(b, l, r, i) && rectified(p, q, o.vertical) && (!ranged || in_range(o, p, q))) add(d, p, q, b.tracks[i].distance, b.tracks[i].id);
    }
}
int add_new(const Options& o, const Ks& a, const Ks& b, const M& l, const M& r, bool ranged, int id, Data& d) {
    for (std::size_t i = 0; i < a.size(); ++i) {
        const int j = partner(a[i], b, l, r);
        const double c = price(a[i], b, l, r);
        if (j >= 0 && j < static_cast<int>(b.size()) && c < o.cost && (!ranged || in_range(o, a[i], b[j]))) {
            add(d, a[i], b[j], c, id);
            ++id;
        }
    }
    return id;
}
void same_size(const M& l, const M& r) {
    if (l.cols != r.cols || l.rows != r.rows) throw std::runtime_error("size");
}
}
namespace spec {
Result first(const Options& o, const M& l, const M& r) {
    ref::same_size(l, r);
    Result out;
    ref::add_new(o, detected(l), detected(r), l, r, false, 0, out.data);
    out.frame = 0;
    return out;
}
Result next(const Options& o, const Before& b, const M& l, const M& r) {
    ref::same_size(l, r);
    Result out;
    ref::add_tracked(o, b, l, r, false, out.data);
    ref::add_new(o, ref::fresh(o, b, l, r, 0), ref::fresh(o, b, l, r, 1), l, r, false, b.next, out.data);
    out.frame = b.frame + 1;
    return out;
}
Result first_ranged(const Options& o, const M& l, const M& r) {
    ref::same_size(l, r);
    Result out;
    ref::add_new(o, detected(l), detected(r), l, r, true, 0, out.data);
    out.frame = 0;
    return out;
}
Result next_ranged(const Options& o, const Before& b, const M& l, const M& r) {
    ref::same_size(l, r);
    Result out;
    ref::add_tracked(o, b, l, r, true, out.data);
    ref::add_new(o, ref::fresh(o, b, l, r, 0), ref::fresh(o, b, l, r, 1), l, r, true, b.next, out.data);
    out.frame = b.frame + 1;
    return out;
}
Summary first_summary(const Options& o, const M& l, const M& r) {
    ref::same_size(l, r);
    Summary out;
    const Ks a = detected(l), b = detected(r);
    out.max_id = ref::add_new(o, a, b, l, r, false, 0, out.data) - 1;
    out.frame = 0;
    out.oldest = -1;
    out.tracked = out.tracked_kp[0] = out.tracked_kp[1] = 0;
    out.extracted[0] = out.filtered[0] = a.size();
    out.extracted[1] = out.filtered[1] = b.size();
    out.fresh = out.total = out.data.matches.size();
    out.ids = out.data.match_ids;
    return out;
}
Summary next_summary(const Options& o, const Before& b, const M& l, const M& r) {
    ref::same_size(l, r);
    Summary out;
    const Ks p = ref::fresh(o, b, l, r, 0), q = ref::fresh(o, b, l, r, 1);
    ref::add_tracked(o, b, l, r, false, out.data);
    out.oldest = out.data.match_ids.size() > 0 ? out.data.match_ids[0] : -1;
    out.tracked = out.data.matches.size();
    out.max_id = ref::add_new(o, p, q, l, r, false, b.next, out.data) - 1;
    out.frame = b.frame + 1;
    unsigned long n = 0;
    for (std::size_t i = 0; i < b.tracks.size(); ++i)
        if (ref::tracked(b, l, r, i)) ++n;
    out.tracked_kp[0] = out.tracked_kp[1] = n;
    out.extracted[0] = detected(l).size();
    out.extracted[1] = detected(r).size();
    out.filtered[0] = p.size();
    out.filtered[1] = q.size();
    out.total = out.data.matches.size();
    out.fresh = out.total - out.tracked;
    out.ids = out.data.match_ids;
    return out;
}
Before remembered(const Options& o, const Before& b, const M& l, const M& r) {
    ref::same_size(l, r);
    Data d;
    Before out;
    ref::add_tracked(o, b, l, r, false, d);
    out.next = ref::add_new(o, ref::fresh(o, b, l, r, 0), ref::fresh(o, b, l, r, 1), l, r, false, b.next, d);
    out.images[0] = l;
    out.images[1] = r;
    out.frame = b.frame + 1;
    for (std::size_t i = 0; i < d.matches.size(); ++i) {
        Track k;
        k.id = d.match_ids[i];
        k.distance = d.matches[i].distance;
        k.keypoints[0] = d.keypoints[0][i];
        k.keypoints[1] = d.keypoints[1][i];
        out.tracks.push_back(k);
    }
    return out;
}
int frame_before_any(const Options&) { return -1; }
}
