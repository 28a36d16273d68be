#include "verif.hpp"
#include "pointcloud_tools/src/point_types.cpp"
#include <pointcloud_tools/registration_utilities.hpp>
using PU = PointNormalUnit;
template<typename P, typename S> using Reg = pcl::Registration<P, P, S>;
using Out = pcl::Correspondences;

namespace impl {
Out forward(Reg<PU, float>& r) { return *pct::compute_registration_correspondences(r); }
Out forward_d(Reg<PU, double>& r) { return *pct::compute_registration_correspondences(r, false); }
Out reciprocal(Reg<PU, float>& r) { return *pct::compute_registration_correspondences(r, true); }
}
namespace spec {
template<typename R> Out forward_of(R& r) {
    Out o;
    const double limit = r.getMaxCorrespondenceDistance() * r.getMaxCorrespondenceDistance();
    const Eigen::Matrix4f T = r.getFinalTransformation().template cast<float>();
    const auto ids = r.getIndices();
    const auto tree = r.getSearchMethodTarget();
    for (int id : *ids) {
        const PU& p = (*r.getInputSource())[id];
        float m[3];
        for (int k = 0; k < 3; ++k) m[k] = T(k, 0) * p.x + T(k, 1) * p.y + T(k, 2) * p.z + T(k, 3) * p.data[3];
        if (verif::found(tree->tree_, m[0], m[1], m[2], 1) != 1) continue;
        const float d = verif::distances(tree->tree_, m[0], m[1], m[2], 1)[0];
        if (d <= limit) o.push_back(pcl::Correspondence(id, verif::neighbours(tree->tree_, m[0], m[1], m[2], 1)[0], std::sqrt(d)));
    }
    return o;
}
Out forward(Reg<PU, float>& r) { return forward_of(r); }
Out forward_d(Reg<PU, double>& r) { return forward_of(r); }
Out reciprocal(Reg<PU, float>& r) {
    Out o;
    const double limit = r.getMaxCorrespondenceDistance() * r.getMaxCorrespondenceDistance();
    const Eigen::Matrix4f T = r.getFinalTransformation().inverse();
    const auto tree = r.getSearchMethodSource();
    if (tree->getIndices() != r.getIndices()) throw std::runtime_error("refused");
    const auto target = r.getInputTarget();
    for (std::size_t j = 0; j < target->size(); ++j) {
        const PU& p = (*target)[j];
        float m[3];
        for (int k = 0; k < 3; ++k) m[k] = T(k, 0) * p.x + T(k, 1) * p.y + T(k, 2) * p.z + T(k, 3) * p.data[3];
        if (verif::found(tree->tree_, m[0], m[1], m[2], 1) != 1) continue;
        const float d = verif::distances(tree->tree_, m[0], m[1], m[2], 1)[0];
        if (d <= limit) o.push_back(pcl::Correspondence(verif::neighbours(tree->tree_, m[0], m[1], m[2], 1)[0], j, std::sqrt(d)));
    }
    return o;
}
}
