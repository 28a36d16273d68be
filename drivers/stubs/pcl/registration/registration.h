// Stands for PCL's registration base class: the same read interface over plain data, so that code working on a completed
// registration is analysed over every registration.  Nearest-neighbour search is an unknown function of the query position.
#pragma once
#include <pcl/PointIndices.h>
#include <pcl/correspondence.h>
#include <pcl/memory.h>
#include <pcl/pcl_base.h>
#include <pcl/pcl_macros.h>
#include <pcl/point_cloud.h>

namespace verif {
// what a search structure answers for a query position: how many neighbours, which, how far
int found(long tree, float x, float y, float z, double limit);
pcl::Indices neighbours(long tree, float x, float y, float z, double limit);
std::vector<float> distances(long tree, float x, float y, float z, double limit);
}

namespace pcl {
namespace search {
template<typename PointT> class KdTree {
public:
    using Ptr = shared_ptr<KdTree<PointT>>;
    using ConstPtr = shared_ptr<const KdTree<PointT>>;
    using IndicesConstPtr = pcl::IndicesConstPtr;
    IndicesConstPtr getIndices() const { return indices_; }
    int nearestKSearch(const PointT& p, int k, Indices& index, std::vector<float>& sq_dist) const {
        index = verif::neighbours(tree_, p.x, p.y, p.z, k);
        sq_dist = verif::distances(tree_, p.x, p.y, p.z, k);
        return verif::found(tree_, p.x, p.y, p.z, k);
    }
    int radiusSearch(const PointT& p, double radius, Indices& index, std::vector<float>& sq_dist, unsigned int max_nn = 0) const {
        index = verif::neighbours(tree_, p.x, p.y, p.z, -radius - 1.0 - max_nn);
        sq_dist = verif::distances(tree_, p.x, p.y, p.z, -radius - 1.0 - max_nn);
        return verif::found(tree_, p.x, p.y, p.z, -radius - 1.0 - max_nn);
    }
    IndicesConstPtr indices_;
    long tree_;
};
}

template<typename PointSource, typename PointTarget, typename Scalar = float> class Registration {
public:
    using Matrix4 = Eigen::Matrix<Scalar, 4, 4>;
    using Ptr = shared_ptr<Registration<PointSource, PointTarget, Scalar>>;
    using ConstPtr = shared_ptr<const Registration<PointSource, PointTarget, Scalar>>;
    using KdTree = pcl::search::KdTree<PointTarget>;
    using KdTreePtr = typename KdTree::Ptr;
    using KdTreeReciprocal = pcl::search::KdTree<PointSource>;
    using KdTreeReciprocalPtr = typename KdTreeReciprocal::Ptr;
    using PointCloudSource = pcl::PointCloud<PointSource>;
    using PointCloudSourcePtr = typename PointCloudSource::Ptr;
    using PointCloudSourceConstPtr = typename PointCloudSource::ConstPtr;
    using PointCloudTarget = pcl::PointCloud<PointTarget>;
    using PointCloudTargetPtr = typename PointCloudTarget::Ptr;
    using PointCloudTargetConstPtr = typename PointCloudTarget::ConstPtr;

    PointCloudSourceConstPtr const getInputSource() { return input_; }
    PointCloudSourceConstPtr const getInputCloud() const { return input_; }
    PointCloudTargetConstPtr const getInputTarget() { return target_; }
    IndicesPtr getIndices() { return indices_; }
    IndicesConstPtr const getIndices() const { return indices_; }
    const PointSource& operator[](std::size_t pos) const { return (*input_)[(*indices_)[pos]]; }
    KdTreePtr getSearchMethodTarget() const { return tree_; }
    KdTreeReciprocalPtr getSearchMethodSource() const { return tree_reciprocal_; }
    Matrix4 getFinalTransformation() { return final_transformation_; }
    Matrix4 getLastIncrementalTransformation() { return transformation_; }
    int getMaximumIterations() { return max_iterations_; }
    double getRANSACIterations() { return ransac_iterations_; }
    double getRANSACOutlierRejectionThreshold() { return inlier_threshold_; }
    double getMaxCorrespondenceDistance() { return corr_dist_threshold_; }
    double getTransformationEpsilon() { return transformation_epsilon_; }
    double getTransformationRotationEpsilon() { return transformation_rotation_epsilon_; }
    double getEuclideanFitnessEpsilon() { return euclidean_fitness_epsilon_; }
    bool hasConverged() const { return converged_; }

    PointCloudSourceConstPtr input_;
    PointCloudTargetConstPtr target_;
    IndicesPtr indices_;
    KdTreePtr tree_;
    KdTreeReciprocalPtr tree_reciprocal_;
    Matrix4 final_transformation_, transformation_;
    int max_iterations_;
    double ransac_iterations_, inlier_threshold_, corr_dist_threshold_, transformation_epsilon_, transformation_rotation_epsilon_, euclidean_fitness_epsilon_;
    bool converged_;
};
}
