#include "verif.hpp"
#include "serpent/src/back_end/graph_manager.cpp"
using GM = serpent::GraphManager;
using IM = serpent::ISAM2GraphManager;
using Graph = gtsam::NonlinearFactorGraph;
using Bias = gtsam::imuBias::ConstantBias;
using Noise = gtsam::SharedNoiseModel;
using Keys = gtsam::FastList<gtsam::Key>;
using Stereo = gtsam::GenericStereoFactor<gtsam::Pose3, gtsam::Point3>;
using Str = std::string;
using gtsam::Pose3; using gtsam::Velocity3; using gtsam::Point3; using gtsam::NavState; using gtsam::Values;

namespace impl {
// named keys
int key_of(const GM& g, const Str& n, int o) { return g.key(n, o); }
unsigned priority_of(const GM& g, const Str& n) { return g.priority(n); }
void increment(GM& g, const Str& n) { g.increment(n); }
void set_named(GM& g, const Str& n, int k, unsigned p) { g.set_named_key(n, k, p); }
int minimum(const GM& g, unsigned p) { return g.minimum_key(p); }
// reading
Pose3 pose_at(const GM& g, int k) { return g.pose(k); }
Velocity3 velocity_at(const GM& g, int k) { return g.velocity(k); }
Bias bias_at(const GM& g, int k) { return g.imu_bias(k); }
double barometer_at(const GM& g, int k) { return g.barometer_bias(k); }
NavState navstate_at(const GM& g, int k) { return g.navstate(k); }
serpent::RobotState state_at(const GM& g, int k) { return g.state(k); }
bool has_pose_at(const GM& g, int k) { return g.has_pose(k); }
bool has_landmark(const GM& g, int id) { return g.has_stereo_landmark(id); }
Point3 landmark_at(const GM& g, int id) { return g.stereo_landmark(id); }
ros::Time timestamp_at(const GM& g, int k) { return g.timestamp(k); }
ros::Duration between(const GM& g, int k, int j) { return g.time_between(k, j); }
gtsam::StereoCamera camera_at(const GM& g, int k) { return g.stereo_camera(k); }
std::map<int, Point3> landmarks_of(const GM& g, int k) { return g.stereo_landmarks(k); }
// reading by name
Pose3 pose_named(const GM& g, const Str& n, int o) { return g.pose(n, o); }
Velocity3 velocity_named(const GM& g, const Str& n, int o) { return g.velocity(n, o); }
Bias bias_named(const GM& g, const Str& n, int o) { return g.imu_bias(n, o); }
double barometer_named(const GM& g, const Str& n, int o) { return g.barometer_bias(n, o); }
NavState navstate_named(const GM& g, const Str& n, int o) { return g.navstate(n, o); }
serpent::RobotState state_named(const GM& g, const Str& n, int o) { return g.state(n, o); }
bool has_pose_named(const GM& g, const Str& n, int o) { return g.has_pose(n, o); }
ros::Time timestamp_named(const GM& g, const Str& n, int o) { return g.timestamp(n, o); }
ros::Duration between_named(const GM& g, const Str& n, const Str& m, int o, int p) { return g.time_between(n, m, o, p); }
gtsam::StereoCamera camera_named(const GM& g, const Str& n, int o) { return g.stereo_camera(n, o); }
// writing
void put_pose(GM& g, int k, const Pose3& v) { g.set_pose(k, v); }
void put_velocity(GM& g, int k, const Velocity3& v) { g.set_velocity(k, v); }
void put_bias(GM& g, int k, const Bias& v) { g.set_imu_bias(k, v); }
void put_barometer(GM& g, int k, double v) { g.set_barometer_bias(k, v); }
void put_navstate(GM& g, int k, const NavState& v) { g.set_navstate(k, v); }
void put_timestamp(GM& g, int k, const ros::Time& t) { g.set_timestamp(k, t); }
void put_pose_named(GM& g, const Str& n, int o, const Pose3& v) { g.set_pose(n, v, o); }
void put_velocity_named(GM& g, const Str& n, int o, const Velocity3& v) { g.set_velocity(n, v, o); }
void put_bias_named(GM& g, const Str& n, int o, const Bias& v) { g.set_imu_bias(n, v, o); }
void put_barometer_named(GM& g, const Str& n, int o, double v) { g.set_barometer_bias(n, v, o); }
void put_navstate_named(GM& g, const Str& n, int o, const NavState& v) { g.set_navstate(n, v, o); }
void put_timestamp_named(GM& g, const Str& n, int o, const ros::Time& t) { g.set_timestamp(n, t, o); }
void update_all(GM& g, const Values& v) { g.update_from_values(v); }
// factors
void barometer_between(GM& g, int k, Noise n) { g.create_barometric_bias_factor(k, n); }
double barometric(GM& g, int k, double p, Noise n) { return g.create_barometric_factor(k, p, n); }
void pose_between(GM& g, int k, const Pose3& p, Noise n) { g.create_between_pose_factor(k, p, n); }
void imu_between(GM& g, int k, const gtsam::PreintegratedCombinedMeasurements& m) { g.create_combined_imu_factor(k, m); }
void prior_barometer(GM& g, int k, double v, Noise n) { g.create_prior_barometer_bias_factor(k, v, n); }
void prior_bias(GM& g, int k, const Bias& v, Noise n) { g.create_prior_imu_bias_factor(k, v, n); }
void prior_pose(GM& g, int k, const Pose3& v, Noise n) { g.create_prior_pose_factor(k, v, n); }
void prior_velocity(GM& g, int k, const Velocity3& v, Noise n) { g.create_prior_velocity_factor(k, v, n); }
void stereo(GM& g, int k, const std::map<int, gtsam::StereoPoint2>& f) { g.create_stereo_factors_and_values(k, f); }
Graph factors_between(const GM& g, int a, int b) { return g.factors(a, b); }
Graph every_factor(const GM& g) { return g.all_factors(); }
// taking out what is new
Graph take_factors(GM& g, int m) { return g.extract_new_factors(m); }
Values take_values(GM& g, int m) { return g.extract_new_values(m); }
Keys take_keys(GM& g, int m) { return g.extract_unmarginalised_keys(m); }
Values values_between(const GM& g, int a, int b) { return g.values(a, b); }
// incremental optimisation
void marginalise(IM& g, int k) { g.marginalise(k); }
gtsam::ISAM2Result optimise(IM& g, int k) { return g.optimise(k); }
void window(IM& g, bool on, unsigned n) { g.set_marginalisation(on, n); }
Eigen::Matrix<double, 6, 6> pose_cov(const IM& g, int k) { return g.pose_covariance(k); }
Eigen::Matrix<double, 6, 6> bias_cov(const IM& g, int k) { return g.imu_bias_covariance(k); }
Eigen::Matrix3d velocity_cov(const IM& g, int k) { return g.velocity_covariance(k); }
Eigen::Matrix<double, 1, 1> barometer_var(const IM& g, int k) { return g.barometer_bias_variance(k); }
}

namespace spec {
int named(const GM& g, const Str& n, int o) {
    if (g.keys.count(n) == 0) throw std::out_of_range("no such key");
    return o + g.keys.at(n).key;
}
template<typename T> const T& stored(const GM& g, gtsam::Key raw) {
    if (!g.values_.exists(raw)) throw std::runtime_error("no such value");
    return g.values_.at<T>(raw);
}
// a new value becomes known, pending optimisation and marginalisable under its key; a known value is overwritten
template<typename T> void put(GM& g, int k, gtsam::Key raw, const T& v) {
    if (!g.values_.exists(raw)) {
        g.values_.insert(raw, v);
        g.new_values_.insert(raw, v);
        g.unmarginalised_keys_[k].push_back(raw);
        return;
    }
    g.values_.update(raw, v);
    if (g.new_values_.exists(raw)) g.new_values_.update(raw, v);
}
void append(GM& g, int k, boost::shared_ptr<gtsam::NonlinearFactor> f) {
    g.new_factors_[k].push_back(f);
    g.factors_[k].push_back(f);
}

int key_of(const GM& g, const Str& n, int o) { return named(g, n, o); }
unsigned priority_of(const GM& g, const Str& n) {
    auto it = g.keys.find(n);
    if (it == g.keys.end()) throw std::out_of_range("no such key");
    return it->second.priority;
}
void increment(GM& g, const Str& n) {
    auto it = g.keys.find(n);
    if (it == g.keys.end()) throw std::out_of_range("no such key");
    it->second.key += 1;
}
void set_named(GM& g, const Str& n, int k, unsigned p) { g.keys[n] = GM::NamedKeyInfo(k, p); }
int minimum(const GM& g, unsigned p) {
    int least = std::numeric_limits<int>::max();
    bool any = false;
    for (const auto& e : g.keys) {
        if (e.second.priority > p) continue;
        any = true;
        if (e.second.key < least) least = e.second.key;
    }
    if (!any) throw std::runtime_error("no key");
    return least;
}
Pose3 pose_at(const GM& g, int k) { return stored<Pose3>(g, X(k)); }
Velocity3 velocity_at(const GM& g, int k) { return stored<Velocity3>(g, V(k)); }
Bias bias_at(const GM& g, int k) { return stored<Bias>(g, B(k)); }
double barometer_at(const GM& g, int k) { return stored<double>(g, P(k)); }
NavState navstate_at(const GM& g, int k) { return NavState(stored<Pose3>(g, X(k)), stored<Velocity3>(g, V(k))); }
ros::Time timestamp_at(const GM& g, int k) {
    if (g.timestamps_.count(k) == 0) throw std::out_of_range("no timestamp");
    return g.timestamps_.at(k);
}
serpent::RobotState state_at(const GM& g, int k) {
    return serpent::RobotState(timestamp_at(g, k), pose_at(g, k), velocity_at(g, k), bias_at(g, k), barometer_at(g, k));
}
bool has_pose_at(const GM& g, int k) { return g.values_.exists(X(k)); }
bool has_landmark(const GM& g, int id) { return g.values_.exists(S(id)); }
Point3 landmark_at(const GM& g, int id) { return stored<Point3>(g, S(id)); }
ros::Duration between(const GM& g, int k, int j) {
    const ros::Time a = timestamp_at(g, k), b = timestamp_at(g, j);
    return b - a;
}
gtsam::StereoCamera camera_at(const GM& g, int k) {
    if (!g.body_to_stereo_left_cam) throw std::runtime_error("no camera pose");
    return gtsam::StereoCamera(stored<Pose3>(g, X(k)) * *g.body_to_stereo_left_cam, g.K);
}
std::map<int, Point3> landmarks_of(const GM& g, int k) {
    std::map<int, Point3> out;
    for (const auto& e : g.stereo_landmark_ids) {
        if (k != -1 && e.first != k) continue;
        for (const int id : e.second) {
            const Point3 p = stored<Point3>(g, S(id));
            if (out.count(id) == 0) out[id] = p;
        }
    }
    return out;
}
Pose3 pose_named(const GM& g, const Str& n, int o) { return pose_at(g, named(g, n, o)); }
Velocity3 velocity_named(const GM& g, const Str& n, int o) { return velocity_at(g, named(g, n, o)); }
Bias bias_named(const GM& g, const Str& n, int o) { return bias_at(g, named(g, n, o)); }
double barometer_named(const GM& g, const Str& n, int o) { return barometer_at(g, named(g, n, o)); }
NavState navstate_named(const GM& g, const Str& n, int o) { return navstate_at(g, named(g, n, o)); }
serpent::RobotState state_named(const GM& g, const Str& n, int o) { return state_at(g, named(g, n, o)); }
bool has_pose_named(const GM& g, const Str& n, int o) { return has_pose_at(g, named(g, n, o)); }
ros::Time timestamp_named(const GM& g, const Str& n, int o) { return timestamp_at(g, named(g, n, o)); }
ros::Duration between_named(const GM& g, const Str& n, const Str& m, int o, int p) { return between(g, named(g, n, o), named(g, m, p)); }
gtsam::StereoCamera camera_named(const GM& g, const Str& n, int o) { return camera_at(g, named(g, n, o)); }
void put_pose(GM& g, int k, const Pose3& v) { put(g, k, X(k), v); }
void put_velocity(GM& g, int k, const Velocity3& v) { put(g, k, V(k), v); }
void put_bias(GM& g, int k, const Bias& v) { put(g, k, B(k), v); }
void put_barometer(GM& g, int k, double v) { put(g, k, P(k), v); }
void put_navstate(GM& g, int k, const NavState& v) { put(g, k, X(k), v.pose()); put(g, k, V(k), v.velocity()); }
void put_timestamp(GM& g, int k, const ros::Time& t) { g.timestamps_[k] = t; }
void put_pose_named(GM& g, const Str& n, int o, const Pose3& v) { put_pose(g, named(g, n, o), v); }
void put_velocity_named(GM& g, const Str& n, int o, const Velocity3& v) { put_velocity(g, named(g, n, o), v); }
void put_bias_named(GM& g, const Str& n, int o, const Bias& v) { put_bias(g, named(g, n, o), v); }
void put_barometer_named(GM& g, const Str& n, int o, double v) { put_barometer(g, named(g, n, o), v); }
void put_navstate_named(GM& g, const Str& n, int o, const NavState& v) { put_navstate(g, named(g, n, o), v); }
void put_timestamp_named(GM& g, const Str& n, int o, const ros::Time& t) { put_timestamp(g, named(g, n, o), t); }
void update_all(GM& g, const Values& v) {
    for (const auto& [k, x] : v) {
        if (!g.values_.exists(k)) throw std::runtime_error("unknown value");
        g.values_.update(k, x);
        if (g.new_values_.exists(k)) g.new_values_.update(k, x);
    }
}
void barometer_between(GM& g, int k, Noise n) { append(g, k, boost::make_shared<gtsam::BetweenFactor<double>>(P(k - 1), P(k), 0.0, n)); }
double barometric(GM& g, int k, double p, Noise n) {
    auto f = boost::make_shared<gtsam::BarometricFactor>(X(k), P(k), p, n);
    append(g, k, f);
    return f->heightOut(p);
}
void pose_between(GM& g, int k, const Pose3& p, Noise n) { append(g, k, boost::make_shared<gtsam::BetweenFactor<Pose3>>(X(k - 1), X(k), p, n)); }
void imu_between(GM& g, int k, const gtsam::PreintegratedCombinedMeasurements& m) {
    const int j = k - 1;
    append(g, k, boost::make_shared<gtsam::CombinedImuFactor>(X(j), V(j), X(k), V(k), B(j), B(k), m));
}
void prior_barometer(GM& g, int k, double v, Noise n) { append(g, k, boost::make_shared<gtsam::PriorFactor<double>>(P(k), v, n)); }
void prior_bias(GM& g, int k, const Bias& v, Noise n) { append(g, k, boost::make_shared<gtsam::PriorFactor<Bias>>(B(k), v, n)); }
void prior_pose(GM& g, int k, const Pose3& v, Noise n) { append(g, k, boost::make_shared<gtsam::PriorFactor<Pose3>>(X(k), v, n)); }
void prior_velocity(GM& g, int k, const Velocity3& v, Noise n) { append(g, k, boost::make_shared<gtsam::PriorFactor<Velocity3>>(V(k), v, n)); }
Graph factors_between(const GM& g, int a, int b) {
    Graph out;
    for (int i = a; i <= b; ++i) if (g.factors_.count(i)) out.push_back(g.factors_.at(i));
    return out;
}
Graph every_factor(const GM& g) {
    Graph out;
    for (auto it = g.factors_.begin(); it != g.factors_.end(); ++it) out.push_back(it->second);
    return out;
}
void stereo(GM& g, int k, const std::map<int, gtsam::StereoPoint2>& f) {
    verif::assume(g.stereo_features.empty() || g.stereo_features.rbegin()->first < k);
    const bool has_1 = g.stereo_features.rbegin() != g.stereo_features.rend();
    Graph& all = g.factors_[k];
    Graph& fresh = g.new_factors_[k];
    if (has_1) {
        auto it = g.stereo_features.rbegin();
        const int j = it->first;
        const std::map<int, gtsam::StereoPoint2> f1 = it->second;
        ++it;
        const bool has_2 = it != g.stereo_features.rend();
        std::map<int, gtsam::StereoPoint2> f2;
        if (has_2) f2 = it->second;
        const gtsam::StereoCamera camera = camera_at(g, k);
        auto& ids = g.stereo_landmark_ids[k];
        auto& fresh_ids = g.new_stereo_landmark_ids[k];
        for (const auto& [id, z] : f) {
            if (f1.count(id) == 0) continue;
            if (!has_2 || f2.count(id) == 0) {
                auto first = boost::make_shared<Stereo>(f1.at(id), g.stereo_noise_model, X(j), S(id), g.K, g.body_to_stereo_left_cam);
                all.push_back(first);
                fresh.push_back(first);
                ids.push_back(id);
                fresh_ids.push_back(id);
            }
            put(g, id, S(id), camera.backproject(z));
            auto second = boost::make_shared<Stereo>(z, g.stereo_noise_model, X(k), S(id), g.K, g.body_to_stereo_left_cam);
            all.push_back(second);
            fresh.push_back(second);
        }
    }
    g.stereo_features[k] = f;
}
Graph take_factors(GM& g, int m) {
    Graph out;
    for (auto it = g.new_factors_.begin(); it != g.new_factors_.end() && it->first <= m;) {
        out.push_back(it->second);
        g.new_factors_.erase(it++);
    }
    return out;
}
Keys take_keys(GM& g, int m) {
    Keys out;
    for (auto it = g.unmarginalised_keys_.begin(); it != g.unmarginalised_keys_.end() && it->first <= m;) {
        out.insert(out.end(), it->second.begin(), it->second.end());
        g.unmarginalised_keys_.erase(it++);
    }
    return out;
}
void copy(Values& out, const Values& in, gtsam::Key a, gtsam::Key b) {
    for (auto it = in.lower_bound(a); it != in.end() && it->key <= b; ++it) out.insert(it->key, it->value);
}
Values take_values(GM& g, int m) {
    verif::assume(m >= 0);
    Values out;
    copy(out, g.new_values_, B(0), B(m));
    copy(out, g.new_values_, X(0), X(m));
    copy(out, g.new_values_, V(0), V(m));
    copy(out, g.new_values_, P(0), P(m));
    for (auto it = g.new_stereo_landmark_ids.begin(); it != g.new_stereo_landmark_ids.end() && it->first <= m;) {
        for (const int id : it->second) out.insert(S(id), g.new_values_.at(S(id)));
        g.new_stereo_landmark_ids.erase(it++);
    }
    for (const auto& [k, v] : out) g.new_values_.erase(k);
    return out;
}
Values values_between(const GM& g, int a, int b) {
    Values out;
    copy(out, g.values_, B(a), B(b));
    copy(out, g.values_, X(a), X(b));
    copy(out, g.values_, V(a), V(b));
    copy(out, g.values_, P(a), P(b));
    for (auto it = g.stereo_landmark_ids.lower_bound(a); it != g.stereo_landmark_ids.end() && it->first <= b; ++it)
        for (const int id : it->second) out.insert(S(id), g.values_.at(S(id)));
    return out;
}
void marginalise(IM& g, int k) {
    if (g.opt_key_ < k) throw std::runtime_error("not yet optimised");
    g.marginalisation_key_ = k;
    const Keys leaves = take_keys(g, k);
    g.optimiser.marginalizeLeaves(leaves);
}
gtsam::ISAM2Result optimise(IM& g, int k) {
    const Graph fresh_factors = take_factors(g, k);
    const Values fresh_values = take_values(g, k);
    const gtsam::ISAM2Result result = g.optimiser.update(fresh_factors, fresh_values);
    update_all(g, g.optimiser.calculateEstimate());
    g.opt_key_ = k;
    const int last = k - g.marginalisation_window_size;
    if (g.marginalisation && last >= g.marginalisation_key_) marginalise(g, last);
    return result;
}
void window(IM& g, bool on, unsigned n) {
    g.marginalisation = on;
    if (on) g.marginalisation_window_size = n;
}
Eigen::Matrix<double, 6, 6> pose_cov(const IM& g, int k) { return g.optimiser.marginalCovariance(X(k)); }
Eigen::Matrix<double, 6, 6> bias_cov(const IM& g, int k) { return g.optimiser.marginalCovariance(B(k)); }
Eigen::Matrix3d velocity_cov(const IM& g, int k) { return g.optimiser.marginalCovariance(V(k)); }
Eigen::Matrix<double, 1, 1> barometer_var(const IM& g, int k) { return g.optimiser.marginalCovariance(P(k)); }
}
