// The same headers in a second translation unit: they must link together.
#include <Eigen/Geometry>
#include <vector>
#include "arc_utilities/eigen_std_conversions.hpp"
#include "arc_utilities/shape_msgs_builders.hpp"
#include "arc_utilities/eigen_transforms.hpp"
#include "arc_utilities/eigen_ros_conversions.hpp"
std::vector<double> secondConvert(const Eigen::VectorXd& v) { return ConvertTo<std::vector<double>>(v); }
shape_msgs::MeshTriangle secondTriangle(uint32_t a, uint32_t b, uint32_t c) { return arc_utilities::rmb::MakeMeshTriangle(a, b, c); }
std::pair<Pose, Pose> secondTransform(const Pose& t, const std::pair<Eigen::Translation3d, Eigen::Translation3d>& p) { return Transform(t, p); }
