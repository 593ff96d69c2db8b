// stand-in: declarations of the routing functions the interpreter calls
#ifndef STANDIN_TRAFFIC_SIMULATOR_ROUTE
#define STANDIN_TRAFFIC_SIMULATOR_ROUTE
#include <optional>
#include <utility>
#include <traffic_simulator/data_type/lanelet_pose.hpp>
namespace traffic_simulator
{
inline namespace route
{
auto countLaneChanges(const CanonicalizedLaneletPose &, const CanonicalizedLaneletPose &, const RoutingConfiguration &) -> std::optional<std::pair<int, int>>;
}
}  // namespace traffic_simulator
#endif
