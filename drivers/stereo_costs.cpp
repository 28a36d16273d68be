#include "verif.hpp"
#include "serpent/src/front_end/stereo/window_functions.cpp"
#include "serpent/src/front_end/stereo/stereo_cost_functions.cpp"

using P2 = cv::Point2i; using W = cv::Size;

namespace setup {
void ok(const W& w) { verif::assume(w.width >= 0 && w.height >= 0); }   // a window has no negative extent
}
using setup::ok;

namespace impl {
bool within(const cv::Mat& a, const P2& p, const W& w) { return serpent::window_within_image(a, p, w); }
double win_sum(const cv::Mat& a, const P2& p, const W& w) { ok(w); return serpent::window_sum(a, p, w); }
double win_mean(const cv::Mat& a, const P2& p, const W& w) { ok(w); return serpent::window_mean(a, p, w); }
double win_sum_squares(const cv::Mat& a, const P2& p, const W& w) { ok(w); return serpent::window_sum_squares(a, p, w); }
double sad(const cv::Mat& a, const cv::Mat& b, const cv::Point2i& p, const cv::Point2i& q, const cv::Size& w) { ok(w); return serpent::sum_of_absolute_differences(a, b, p, q, w); }
double throws_sad(const cv::Mat& a, const cv::Mat& b, const cv::Point2i& p, const cv::Point2i& q, const cv::Size& w) { return serpent::sum_of_absolute_differences(a, b, p, q, w); }
double ssd(const cv::Mat& a, const cv::Mat& b, const cv::Point2i& p, const cv::Point2i& q, const cv::Size& w) { ok(w); return serpent::sum_of_squared_differences(a, b, p, q, w); }
double throws_ssd(const cv::Mat& a, const cv::Mat& b, const cv::Point2i& p, const cv::Point2i& q, const cv::Size& w) { return serpent::sum_of_squared_differences(a, b, p, q, w); }
double zsad(const cv::Mat& a, const cv::Mat& b, const cv::Point2i& p, const cv::Point2i& q, const cv::Size& w) { ok(w); return serpent::zero_mean_sum_of_absolute_differences(a, b, p, q, w); }
double throws_zsad(const cv::Mat& a, const cv::Mat& b, const cv::Point2i& p, const cv::Point2i& q, const cv::Size& w) { return serpent::zero_mean_sum_of_absolute_differences(a, b, p, q, w); }
double zsad_given(const cv::Mat& a, const cv::Mat& b, const cv::Point2i& p, const cv::Point2i& q, const cv::Size& w, double s1) { ok(w); return serpent::zero_mean_sum_of_absolute_differences(a, b, p, q, w, s1); }
double throws_zsad_given(const cv::Mat& a, const cv::Mat& b, const cv::Point2i& p, const cv::Point2i& q, const cv::Size& w, double s1) { return serpent::zero_mean_sum_of_absolute_differences(a, b, p, q, w, s1); }
double lsad(const cv::Mat& a, const cv::Mat& b, const cv::Point2i& p, const cv::Point2i& q, const cv::Size& w) { ok(w); return serpent::locally_scaled_sum_of_absolute_differences(a, b, p, q, w); }
double throws_lsad(const cv::Mat& a, const cv::Mat& b, const cv::Point2i& p, const cv::Point2i& q, const cv::Size& w) { return serpent::locally_scaled_sum_of_absolute_differences(a, b, p, q, w); }
double lsad_given(const cv::Mat& a, const cv::Mat& b, const cv::Point2i& p, const cv::Point2i& q, const cv::Size& w, double s1) { ok(w); return serpent::locally_scaled_sum_of_absolute_differences(a, b, p, q, w, s1); }
double throws_lsad_given(const cv::Mat& a, const cv::Mat& b, const cv::Point2i& p, const cv::Point2i& q, const cv::Size& w, double s1) { return serpent::locally_scaled_sum_of_absolute_differences(a, b, p, q, w, s1); }
double nncc(const cv::Mat& a, const cv::Mat& b, const cv::Point2i& p, const cv::Point2i& q, const cv::Size& w) { ok(w); return serpent::negative_normalised_cross_correlation(a, b, p, q, w); }
double throws_nncc(const cv::Mat& a, const cv::Mat& b, const cv::Point2i& p, const cv::Point2i& q, const cv::Size& w) { return serpent::negative_normalised_cross_correlation(a, b, p, q, w); }
double nncc_given(const cv::Mat& a, const cv::Mat& b, const cv::Point2i& p, const cv::Point2i& q, const cv::Size& w, double s1) { ok(w); return serpent::negative_normalised_cross_correlation(a, b, p, q, w, s1); }
double throws_nncc_given(const cv::Mat& a, const cv::Mat& b, const cv::Point2i& p, const cv::Point2i& q, const cv::Size& w, double s1) { return serpent::negative_normalised_cross_correlation(a, b, p, q, w, s1); }
}

namespace spec {
double px(const cv::Mat& a, const P2& p, int r, int c) { return a.at<unsigned char>(p.y + r, p.x + c); }
void need8(const cv::Mat& a) { if (a.type() != CV_8U) throw std::runtime_error("type"); }
template<typename F> double over(const W& w, F f) {
    double s = 0;
    for (int r = 0; r < w.height; ++r)
        for (int c = 0; c < w.width; ++c) s += f(r, c);
    return s;
}
bool within(const cv::Mat& a, const P2& p, const W& w) { return !(p.x < 0 || p.y < 0 || p.x + w.width > a.cols || p.y + w.height > a.rows); }
double win_sum(const cv::Mat& a, const P2& p, const W& w) { return over(w, [&](int r, int c) { return px(a, p, r, c); }); }
double win_mean(const cv::Mat& a, const P2& p, const W& w) { return win_sum(a, p, w) / (static_cast<double>(w.width) * w.height); }
double win_sum_squares(const cv::Mat& a, const P2& p, const W& w) { return over(w, [&](int r, int c) { return px(a, p, r, c) * px(a, p, r, c); }); }
double mag(double x) { return x < 0 ? -x : x; }

double sad(const cv::Mat& a, const cv::Mat& b, const P2& p, const P2& q, const W& w) {
    need8(a); need8(b);
    return over(w, [&](int r, int c) { return mag(px(a, p, r, c) - px(b, q, r, c)); });
}
double ssd(const cv::Mat& a, const cv::Mat& b, const P2& p, const P2& q, const W& w) {
    need8(a); need8(b);
    return over(w, [&](int r, int c) { const double d = px(a, p, r, c) - px(b, q, r, c); return d * d; });
}
double zsad_given(const cv::Mat& a, const cv::Mat& b, const P2& p, const P2& q, const W& w, double m1) {
    need8(a); need8(b);
    const double m2 = win_mean(b, q, w);
    return over(w, [&](int r, int c) { return mag((px(a, p, r, c) - m1) - (px(b, q, r, c) - m2)); });
}
double lsad_given(const cv::Mat& a, const cv::Mat& b, const P2& p, const P2& q, const W& w, double m1) {
    need8(a); need8(b);
    const double m2 = win_mean(b, q, w);
    return over(w, [&](int r, int c) { return mag(px(a, p, r, c) - m1 / m2 * px(b, q, r, c)); });
}
double nncc_given(const cv::Mat& a, const cv::Mat& b, const P2& p, const P2& q, const W& w, double s1) {
    need8(a); need8(b);
    const double s2 = win_sum_squares(b, q, w);
    return -over(w, [&](int r, int c) { return px(a, p, r, c) * px(b, q, r, c); }) / std::sqrt(s1 * s2);
}
double zsad(const cv::Mat& a, const cv::Mat& b, const P2& p, const P2& q, const W& w) { return zsad_given(a, b, p, q, w, win_mean(a, p, w)); }
double lsad(const cv::Mat& a, const cv::Mat& b, const P2& p, const P2& q, const W& w) { return lsad_given(a, b, p, q, w, win_mean(a, p, w)); }
double nncc(const cv::Mat& a, const cv::Mat& b, const P2& p, const P2& q, const W& w) { return nncc_given(a, b, p, q, w, win_sum_squares(a, p, w)); }
double throws_sad(const cv::Mat& a, const cv::Mat& b, const cv::Point2i& p, const cv::Point2i& q, const cv::Size& w) { return sad(a, b, p, q, w); }
double throws_ssd(const cv::Mat& a, const cv::Mat& b, const cv::Point2i& p, const cv::Point2i& q, const cv::Size& w) { return ssd(a, b, p, q, w); }
double throws_zsad(const cv::Mat& a, const cv::Mat& b, const cv::Point2i& p, const cv::Point2i& q, const cv::Size& w) { return zsad(a, b, p, q, w); }
double throws_zsad_given(const cv::Mat& a, const cv::Mat& b, const cv::Point2i& p, const cv::Point2i& q, const cv::Size& w, double s1) { return zsad_given(a, b, p, q, w, s1); }
double throws_lsad(const cv::Mat& a, const cv::Mat& b, const cv::Point2i& p, const cv::Point2i& q, const cv::Size& w) { return lsad(a, b, p, q, w); }
double throws_lsad_given(const cv::Mat& a, const cv::Mat& b, const cv::Point2i& p, const cv::Point2i& q, const cv::Size& w, double s1) { return lsad_given(a, b, p, q, w, s1); }
double throws_nncc(const cv::Mat& a, const cv::Mat& b, const cv::Point2i& p, const cv::Point2i& q, const cv::Size& w) { return nncc(a, b, p, q, w); }
double throws_nncc_given(const cv::Mat& a, const cv::Mat& b, const cv::Point2i& p, const cv::Point2i& q, const cv::Size& w, double s1) { return nncc_given(a, b, p, q, w, s1); }
}
