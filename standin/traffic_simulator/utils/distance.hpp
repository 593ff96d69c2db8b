// stand-in: declarations of the distance functions the interpreter calls
#ifndef STANDIN_TRAFFIC_SIMULATOR_DISTANCE
#define STANDIN_TRAFFIC_SIMULATOR_DISTANCE
#include <optional>
#include <traffic_simulator/data_type/lanelet_pose.hpp>
#include <traffic_simulator_msgs/msg/bounding_box.hpp>
namespace traffic_simulator
{
inline namespace distance
{
auto lateralDistance(const CanonicalizedLaneletPose &, const CanonicalizedLaneletPose &, const RoutingConfiguration &) -> std::optional<double>;
auto longitudinalDistance(const CanonicalizedLaneletPose &, const CanonicalizedLaneletPose &, bool, bool, const RoutingConfiguration &) -> std::optional<double>;
auto boundingBoxDistance(const geometry_msgs::msg::Pose &, const traffic_simulator_msgs::msg::BoundingBox &, const geometry_msgs::msg::Pose &, const traffic_simulator_msgs::msg::BoundingBox &) -> std::optional<double>;
}  // namespace distance
}  // namespace traffic_simulator
#endif
