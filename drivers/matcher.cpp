#include "verif.hpp"
#include "serpent/src/front_end/stereo/window_functions.cpp"
#include "serpent/src/front_end/stereo/stereo_cost_functions.cpp"
#include "serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp"
using K = cv::KeyPoint; using Ks = std::vector<cv::KeyPoint>; using M = cv::Mat; using P2 = cv::Point2i; using W = cv::Size;
using Base = serpent::StereoKeyPointMatcher;
using F = Base::MatchingFilter;

// an unknown matching cost with an unknown statistic of the reference window
double statistic(const uchar* reference, int x, int y, int w, int h);
double cost_of(const uchar* a, const uchar* b, int ax, int ay, int bx, int by, int w, int h, double s);
struct Any : Base {
    Any(const W& w, float v, F f, double r) : Base(w, v, f, r) {}
    serpent::MatchingCostFunction generate_cost_function(const M& a, const P2& p) const override {
        const double s = statistic(a.data, p.x, p.y, window.width, window.height);
        return [s](const M& a, const M& b, const P2& p, const P2& q, const W& w) { return cost_of(a.data, b.data, p.x, p.y, q.x, q.y, w.width, w.height, s); };
    }
};
// an unknown matcher of single keypoints
K scanned(const Any& m, const K& k, const M& l, const M& r, bool right);
double scan_cost(const Any& m, const K& k, const M& l, const M& r, bool right);
bool scan_matched(const Any& m, const K& k, const M& l, const M& r, bool right);
int indexed(const Any& m, const K& k, const Ks& ks, const M& l, const M& r, bool right);
double index_cost(const Any& m, const K& k, const Ks& ks, const M& l, const M& r, bool right);
struct Each : Any {
    K keypoint_in_other_image(const K& k, const M& l, const M& r, const bool right, double& cost, bool& matched) const override {
        cost = scan_cost(*this, k, l, r, right);
        matched = scan_matched(*this, k, l, r, right);
        return scanned(*this, k, l, r, right);
    }
    int keypoint_index_in_other_image(const K& k, const Ks& ks, const M& l, const M& r, const bool right, double& cost) const override {
        cost = index_cost(*this, k, ks, l, r, right);
        return indexed(*this, k, ks, l, r, right);
    }
    F filter() const { return matching_filter; }
};
template<typename T> struct Open : T {
    Open(const W& w) : T(w) {}
    double cost(const M& a, const M& b, const P2& p, const P2& q, const W& w) const { return this->generate_cost_function(a, p)(a, b, p, q, w); }
};

namespace impl {
K scan_best_right(const W& w, float v, double ratio, const K& k, const M& l, const M& r, double& cost, bool& matched) { return Any(w, v, F::UNIDIRECTIONAL, ratio).keypoint_in_other_image(k, l, r, true, cost, matched); }
K scan_best_left(const W& w, float v, double ratio, const K& k, const M& l, const M& r, double& cost, bool& matched) { return Any(w, v, F::UNIDIRECTIONAL, ratio).keypoint_in_other_image(k, l, r, false, cost, matched); }
K scan_two_way_right(const W& w, float v, double ratio, const K& k, const M& l, const M& r, double& cost, bool& matched) { return Any(w, v, F::BIDIRECTIONAL, ratio).keypoint_in_other_image(k, l, r, true, cost, matched); }
K scan_two_way_left(const W& w, float v, double ratio, const K& k, const M& l, const M& r, double& cost, bool& matched) { return Any(w, v, F::BIDIRECTIONAL, ratio).keypoint_in_other_image(k, l, r, false, cost, matched); }
K scan_ratio_right(const W& w, float v, double ratio, const K& k, const M& l, const M& r, double& cost, bool& matched) { return Any(w, v, F::RATIO_TEST, ratio).keypoint_in_other_image(k, l, r, true, cost, matched); }
K scan_ratio_left(const W& w, float v, double ratio, const K& k, const M& l, const M& r, double& cost, bool& matched) { return Any(w, v, F::RATIO_TEST, ratio).keypoint_in_other_image(k, l, r, false, cost, matched); }
int index(const W& w, float v, double ratio, F f, const K& k, const Ks& ks, const M& l, const M& r, bool right, double& cost) {
    return Any(w, v, f, ratio).keypoint_index_in_other_image(k, ks, l, r, right, cost);
}
Ks scans(const Each& m, const Ks& ks, const M& l, const M& r, bool right, std::vector<double>& costs, std::vector<bool>& matched) { return m.keypoints_in_other_image(ks, l, r, right, costs, matched); }
std::vector<int> indices(const Each& m, const Ks& lk, const Ks& rk, const M& l, const M& r, bool right, std::vector<double>& costs) { return m.keypoint_indices_in_other_image(lk, rk, l, r, right, costs); }
F filter_name(const std::string& s) { return serpent::to_matching_filter(s); }
double sad(const W& w, const M& a, const M& b, const P2& p, const P2& q) { return Open<serpent::SADStereoKeyPointMatcher>(w).cost(a, b, p, q, w); }
double ssd(const W& w, const M& a, const M& b, const P2& p, const P2& q) { return Open<serpent::SSDStereoKeyPointMatcher>(w).cost(a, b, p, q, w); }
double zsad(const W& w, const M& a, const M& b, const P2& p, const P2& q) { return Open<serpent::ZeroMeanSADStereoKeyPointMatcher>(w).cost(a, b, p, q, w); }
double lsad(const W& w, const M& a, const M& b, const P2& p, const P2& q) { return Open<serpent::LocallyScaledSADStereoKeyPointMatcher>(w).cost(a, b, p, q, w); }
double ncc(const W& w, const M& a, const M& b, const P2& p, const P2& q) { return Open<serpent::NCCStereoKeyPointMatcher>(w).cost(a, b, p, q, w); }
}
namespace spec {
bool odd(const W& w) { return w.width > 0 && w.height > 0 && w.width % 2 != 0 && w.height % 2 != 0; }
void check(const W& w, double ratio) {
    if (!odd(w) || !(ratio > 0 && ratio < 1)) throw std::runtime_error("refused");
}
// the window around a keypoint, and whether the image holds all of it
P2 corner(const K& k, const W& w) { return P2(int(std::floor(k.pt.x)) - (w.width - 1) / 2, int(std::floor(k.pt.y)) - (w.height - 1) / 2); }
bool inside(const M& m, const P2& p, const W& w) { return p.x >= 0 && p.y >= 0 && p.x + w.width <= m.cols && p.y + w.height <= m.rows; }
double window_cost(const M& a, const M& b, const P2& p, const P2& q, const W& w) {
    return cost_of(a.data, b.data, p.x, p.y, q.x, q.y, w.width, w.height, statistic(a.data, p.x, p.y, w.width, w.height));
}
const double none = std::numeric_limits<double>::max();
K scan(const W& w, float v, double ratio, F f, const K& k, const M& l, const M& r, bool right, double& cost, bool& matched) {
    check(w, ratio);
    if (l.rows != r.rows || l.cols != r.cols) throw std::runtime_error("refused");
    const M& a = right ? l : r;
    const M& b = right ? r : l;
    const P2 p = corner(k, w);
    cost = none;
    matched = false;
    if (!inside(a, p, w)) return K();
    const int step = right ? -1 : 1;
    int best = p.x;
    double second = none;
    for (P2 q = p; right ? q.x >= 0 : q.x <= a.cols - w.width; q.x += step) {
        const double c = window_cost(a, b, p, q, w);
        if (c < cost) {
            second = cost;
            cost = c;
            best = q.x;
        } else if (c < second) {
            second = c;
        }
    }
    P2 q = p;
    q.x = best;
    matched = true;
    if (f == F::BIDIRECTIONAL) {
        for (P2 o = q; right ? o.x <= a.cols - w.width : o.x >= 0; o.x -= step)
            if (o.x != p.x && window_cost(a, b, o, q, w) < cost) {
                matched = false;
                break;
            }
    }
    if (f == F::RATIO_TEST) matched = !(cost / second > ratio);
    K m = k;
    m.pt.x = best + w.width / 2.f;
    m.pt.y = p.y + w.height / 2.f;
    return m;
}
K scan_best_right(const W& w, float v, double ratio, const K& k, const M& l, const M& r, double& cost, bool& matched) { return scan(w, v, ratio, F::UNIDIRECTIONAL, k, l, r, true, cost, matched); }
K scan_best_left(const W& w, float v, double ratio, const K& k, const M& l, const M& r, double& cost, bool& matched) { return scan(w, v, ratio, F::UNIDIRECTIONAL, k, l, r, false, cost, matched); }
K scan_two_way_right(const W& w, float v, double ratio, const K& k, const M& l, const M& r, double& cost, bool& matched) { return scan(w, v, ratio, F::BIDIRECTIONAL, k, l, r, true, cost, matched); }
K scan_two_way_left(const W& w, float v, double ratio, const K& k, const M& l, const M& r, double& cost, bool& matched) { return scan(w, v, ratio, F::BIDIRECTIONAL, k, l, r, false, cost, matched); }
K scan_ratio_right(const W& w, float v, double ratio, const K& k, const M& l, const M& r, double& cost, bool& matched) { return scan(w, v, ratio, F::RATIO_TEST, k, l, r, true, cost, matched); }
K scan_ratio_left(const W& w, float v, double ratio, const K& k, const M& l, const M& r, double& cost, bool& matched) { return scan(w, v, ratio, F::RATIO_TEST, k, l, r, false, cost, matched); }
int index_of(const W& w, float v, double ratio, F f, const K& k, const Ks& ks, const M& l, const M& r, bool right, double& cost) {
    if (l.rows != r.rows || l.cols != r.cols) throw std::runtime_error("refused");
    const M& a = right ? l : r;
    const M& b = right ? r : l;
    const P2 p = corner(k, w);
    cost = none;
    if (!inside(a, p, w)) return -1;
    int best = -1;
    double second = none;
    for (int i = 0; i < int(ks.size()); ++i) {
        if (std::abs(ks[i].pt.y - k.pt.y) > v) continue;
        if (right ? ks[i].pt.x > k.pt.x : ks[i].pt.x < k.pt.x) continue;
        const P2 q = corner(ks[i], w);
        if (!inside(b, q, w)) continue;
        const double c = window_cost(a, b, p, q, w);
        if (c < cost) {
            second = cost;
            cost = c;
            best = i;
        } else if (c < second) {
            second = c;
        }
    }
    if (f == F::RATIO_TEST && cost / second > ratio) best = -1;
    return best;
}
int index(const W& w, float v, double ratio, F f, const K& k, const Ks& ks, const M& l, const M& r, bool right, double& cost) {
    check(w, ratio);
    return index_of(w, v, ratio, f, k, ks, l, r, right, cost);
}
Ks scans(const Each& m, const Ks& ks, const M& l, const M& r, bool right, std::vector<double>& costs, std::vector<bool>& matched) {
    Ks out;
    costs.clear();
    matched.clear();
    for (const K& k : ks) {
        out.push_back(scanned(m, k, l, r, right));
        costs.push_back(scan_cost(m, k, l, r, right));
        matched.push_back(scan_matched(m, k, l, r, right));
    }
    return out;
}
std::vector<int> indices(const Each& m, const Ks& lk, const Ks& rk, const M& l, const M& r, bool right, std::vector<double>& costs) {
    const Ks& from = right ? lk : rk;
    const Ks& to = right ? rk : lk;
    std::vector<int> out;
    costs.clear();
    for (std::size_t i = 0; i < from.size(); ++i) {
        int j = indexed(m, from[i], to, l, r, right);
        costs.push_back(index_cost(m, from[i], to, l, r, right));
        if (m.filter() == F::BIDIRECTIONAL && j != -1 && indexed(m, to[j], from, l, r, !right) != i) j = -1;
        out.push_back(j);
    }
    return out;
}
F filter_name(const std::string& s) {
    if (s == "UNIDIRECTIONAL") return F::UNIDIRECTIONAL;
    if (s == "BIDIRECTIONAL") return F::BIDIRECTIONAL;
    if (s == "RATIO_TEST") return F::RATIO_TEST;
    throw std::runtime_error("refused");
}
void window_only(const W& w) {
    if (!odd(w)) throw std::runtime_error("refused");
}
double sad(const W& w, const M& a, const M& b, const P2& p, const P2& q) { window_only(w); return serpent::sum_of_absolute_differences(a, b, p, q, w); }
double ssd(const W& w, const M& a, const M& b, const P2& p, const P2& q) { window_only(w); return serpent::sum_of_squared_differences(a, b, p, q, w); }
double zsad(const W& w, const M& a, const M& b, const P2& p, const P2& q) { window_only(w); return serpent::zero_mean_sum_of_absolute_differences(a, b, p, q, w); }
double lsad(const W& w, const M& a, const M& b, const P2& p, const P2& q) { window_only(w); return serpent::locally_scaled_sum_of_absolute_differences(a, b, p, q, w); }
double ncc(const W& w, const M& a, const M& b, const P2& p, const P2& q) { window_only(w); return serpent::negative_normalised_cross_correlation(a, b, p, q, w); }
}
