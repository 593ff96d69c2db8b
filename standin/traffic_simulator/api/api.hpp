// Stand-in for the simulator's API as the interpreter uses it (SimulatorCore).  Entities are plain records; requests
// are only recorded.  Lookups follow the contract of the API: getEntityPointer is null and getEntity throws for a name
// that is unknown.
#ifndef STANDIN_TRAFFIC_SIMULATOR_API
#define STANDIN_TRAFFIC_SIMULATOR_API
#include <cmath>
#include <cstdint>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

#include <Eigen/Dense>
#include <boost/math/constants/constants.hpp>
#include <geometry_msgs/msg/accel.hpp>
#include <geometry_msgs/msg/pose.hpp>
#include <geometry_msgs/msg/twist.hpp>
#include <get_parameter/get_parameter.hpp>
#include <rclcpp/rclcpp.hpp>
#include <scenario_simulator_exception/exception.hpp>
#include <traffic_simulator/data_type/entity_status.hpp>
#include <traffic_simulator/data_type/lane_change.hpp>
#include <traffic_simulator/data_type/lanelet_pose.hpp>
#include <traffic_simulator/data_type/route_option.hpp>
#include <traffic_simulator/data_type/speed_change.hpp>
#include <traffic_simulator_msgs/msg/behavior_parameter.hpp>
#include <traffic_simulator_msgs/msg/bounding_box.hpp>
#include <traffic_simulator_msgs/msg/misc_object_parameters.hpp>
#include <traffic_simulator_msgs/msg/pedestrian_parameters.hpp>
#include <traffic_simulator_msgs/msg/vehicle_parameters.hpp>
#include <traffic_simulator_msgs/msg/polyline_trajectory.hpp>

// sensor configurations: settings are kept by name
namespace simulation_api_schema
{
struct SensorConfiguration
{
  std::map<std::string, std::vector<double>> numbers;
  std::map<std::string, std::string> texts;
  template <typename T> void keep(const char * name, const T & x)
  {
    if constexpr (std::is_convertible_v<const T &, std::string>)
      texts[name] = x;
    else
      numbers[name].push_back(x);
  }
};
}  // namespace simulation_api_schema

namespace simulation_api_schema
{
struct ImuSensorConfiguration : public SensorConfiguration
{
  template <typename T> void set_add_gravity(const T & x) { keep("add_gravity", x); }
  template <typename T> void set_entity(const T & x) { keep("entity", x); }
  template <typename T> void set_frame_id(const T & x) { keep("frame_id", x); }
  template <typename T> void set_noise_standard_deviation_acceleration(const T & x) { keep("noise_standard_deviation_acceleration", x); }
  template <typename T> void set_noise_standard_deviation_orientation(const T & x) { keep("noise_standard_deviation_orientation", x); }
  template <typename T> void set_noise_standard_deviation_twist(const T & x) { keep("noise_standard_deviation_twist", x); }
  template <typename T> void set_seed(const T & x) { keep("seed", x); }
  template <typename T> void set_use_seed(const T & x) { keep("use_seed", x); }
};
struct LidarConfiguration : public SensorConfiguration
{
  template <typename T> void add_vertical_angles(const T & x) { keep("vertical_angles", x); }
  template <typename T> void set_architecture_type(const T & x) { keep("architecture_type", x); }
  template <typename T> void set_entity(const T & x) { keep("entity", x); }
  template <typename T> void set_horizontal_resolution(const T & x) { keep("horizontal_resolution", x); }
  template <typename T> void set_lidar_sensor_delay(const T & x) { keep("lidar_sensor_delay", x); }
  template <typename T> void set_scan_duration(const T & x) { keep("scan_duration", x); }
};
struct DetectionSensorConfiguration : public SensorConfiguration
{
  template <typename T> void set_architecture_type(const T & x) { keep("architecture_type", x); }
  template <typename T> void set_detect_all_objects_in_range(const T & x) { keep("detect_all_objects_in_range", x); }
  template <typename T> void set_entity(const T & x) { keep("entity", x); }
  template <typename T> void set_object_recognition_delay(const T & x) { keep("object_recognition_delay", x); }
  template <typename T> void set_object_recognition_ground_truth_delay(const T & x) { keep("object_recognition_ground_truth_delay", x); }
  template <typename T> void set_pos_noise_stddev(const T & x) { keep("pos_noise_stddev", x); }
  template <typename T> void set_probability_of_lost(const T & x) { keep("probability_of_lost", x); }
  template <typename T> void set_random_seed(const T & x) { keep("random_seed", x); }
  template <typename T> void set_range(const T & x) { keep("range", x); }
  template <typename T> void set_update_duration(const T & x) { keep("update_duration", x); }
};
struct OccupancyGridSensorConfiguration : public SensorConfiguration
{
  template <typename T> void set_architecture_type(const T & x) { keep("architecture_type", x); }
  template <typename T> void set_entity(const T & x) { keep("entity", x); }
  template <typename T> void set_filter_by_range(const T & x) { keep("filter_by_range", x); }
  template <typename T> void set_height(const T & x) { keep("height", x); }
  template <typename T> void set_range(const T & x) { keep("range", x); }
  template <typename T> void set_resolution(const T & x) { keep("resolution", x); }
  template <typename T> void set_update_duration(const T & x) { keep("update_duration", x); }
  template <typename T> void set_width(const T & x) { keep("width", x); }
};
struct PseudoTrafficLightDetectorConfiguration : public SensorConfiguration
{
  template <typename T> void set_architecture_type(const T & x) { keep("architecture_type", x); }
};
}  // namespace simulation_api_schema

namespace traffic_simulator
{
struct Configuration
{
};
struct VehicleBehavior
{
  static auto autoware() -> std::string { return "Autoware"; }
  static auto behaviorTree() -> std::string { return "BehaviorTree"; }
  static auto contextGamma() -> std::string { return "ContextGamma"; }
  static auto doNothing() -> std::string { return "DoNothing"; }
  static auto defaultBehavior() -> std::string { return behaviorTree(); }
};
struct PedestrianBehavior
{
  static auto behaviorTree() -> std::string { return "BehaviorTree"; }
  static auto contextGamma() -> std::string { return "ContextGamma"; }
  static auto doNothing() -> std::string { return "DoNothing"; }
  static auto defaultBehavior() -> std::string { return behaviorTree(); }
};

struct MicsObjectBehavior
{
  static auto noBehavior() -> std::string { return ""; }
};

// a request made of the simulator: its name, and the numbers and texts among its arguments, in order (enumerated
// values are numbers, structures their members)
struct Request
{
  std::string what;
  std::vector<double> numbers;
  std::vector<std::string> texts;
  std::shared_ptr<traffic_simulator_msgs::msg::PolylineTrajectory> trajectory;
  std::shared_ptr<traffic_simulator_msgs::msg::VehicleParameters> vehicle;
  std::shared_ptr<traffic_simulator_msgs::msg::PedestrianParameters> pedestrian;
  std::shared_ptr<traffic_simulator_msgs::msg::MiscObjectParameters> misc_object;
  std::shared_ptr<simulation_api_schema::SensorConfiguration> sensor;
};
inline std::vector<Request> requests;

template <typename T>
struct IsVector : public std::false_type
{
};
template <typename T>
struct IsVector<std::vector<T>> : public std::true_type
{
};

template <typename T>
auto note(Request & request, const T & x) -> void
{
  if constexpr (std::is_convertible_v<const T &, std::string>) {
    request.texts.push_back(x);
  } else if constexpr (std::is_convertible_v<const T &, double> or std::is_enum_v<T>) {
    request.numbers.push_back(static_cast<double>(x));
  } else if constexpr (std::is_same_v<T, speed_change::Constraint>) {
    note(request, x.type), note(request, x.value);
  } else if constexpr (std::is_same_v<T, speed_change::RelativeTargetSpeed>) {
    note(request, x.reference_entity_name), note(request, x.type), note(request, x.value);
  } else if constexpr (std::is_same_v<T, lane_change::AbsoluteTarget>) {
    note(request, x.lanelet_id), note(request, x.offset);
  } else if constexpr (std::is_same_v<T, lane_change::RelativeTarget>) {
    note(request, x.entity_name), note(request, x.direction), note(request, x.shift), note(request, x.offset);
  } else if constexpr (std::is_same_v<T, lane_change::Constraint>) {
    note(request, x.type), note(request, x.value), note(request, x.policy);
  } else if constexpr (std::is_same_v<T, v2::RouteOption>) {
    note(request, x.allow_goal_modification), note(request, x.use_lane_ids_for_routing);
  } else if constexpr (std::is_same_v<T, geometry_msgs::msg::Point> or std::is_same_v<T, geometry_msgs::msg::Vector3>) {
    note(request, x.x), note(request, x.y), note(request, x.z);
  } else if constexpr (std::is_same_v<T, geometry_msgs::msg::Quaternion>) {
    note(request, x.x), note(request, x.y), note(request, x.z), note(request, x.w);
  } else if constexpr (std::is_same_v<T, geometry_msgs::msg::Pose>) {
    note(request, x.position), note(request, x.orientation);
  } else if constexpr (std::is_same_v<T, LaneletPose>) {
    note(request, x.lanelet_id), note(request, x.s), note(request, x.offset), note(request, x.rpy);
  } else if constexpr (std::is_same_v<T, CanonicalizedLaneletPose>) {
    note(request, x.getLaneletPose());
  } else if constexpr (std::is_base_of_v<simulation_api_schema::SensorConfiguration, T>) {
    request.sensor = std::make_shared<simulation_api_schema::SensorConfiguration>(x);
  } else if constexpr (IsVector<T>::value) {
    for (const auto & each : x) note(request, each);
  } else if constexpr (std::is_same_v<T, std::shared_ptr<traffic_simulator_msgs::msg::PolylineTrajectory>>) {
    request.trajectory = x;
  } else if constexpr (std::is_same_v<T, traffic_simulator_msgs::msg::VehicleParameters>) {
    request.vehicle = std::make_shared<T>(x);
  } else if constexpr (std::is_same_v<T, traffic_simulator_msgs::msg::PedestrianParameters>) {
    request.pedestrian = std::make_shared<T>(x);
  } else if constexpr (std::is_same_v<T, traffic_simulator_msgs::msg::MiscObjectParameters>) {
    request.misc_object = std::make_shared<T>(x);
  } else {
    static_cast<void>(request), static_cast<void>(x);
  }
}

template <typename... Ts>
auto record(const std::string & what, const Ts &... xs) -> void
{
  Request request;
  request.what = what;
  (note(request, xs), ...);
  requests.push_back(request);
}

namespace entity
{
struct EntityBase
{
  std::string name;
  geometry_msgs::msg::Pose map_pose;
  geometry_msgs::msg::Twist twist;
  geometry_msgs::msg::Accel accel;
  traffic_simulator_msgs::msg::BoundingBox bounding_box;
  traffic_simulator_msgs::msg::BehaviorParameter behavior_parameter;
  std::optional<CanonicalizedLaneletPose> lanelet_pose;
  double standstill = 0;
  double velocity_limit = 0;
  std::string action;

  auto getMapPose() const -> const geometry_msgs::msg::Pose & { return map_pose; }
  auto getCurrentTwist() const -> const geometry_msgs::msg::Twist & { return twist; }
  auto getCurrentAccel() const -> const geometry_msgs::msg::Accel & { return accel; }
  auto getBoundingBox() const -> const traffic_simulator_msgs::msg::BoundingBox & { return bounding_box; }
  auto getCanonicalizedLaneletPose() const -> std::optional<CanonicalizedLaneletPose> { return lanelet_pose; }
  auto getStandStillDuration() const -> double { return standstill; }
  auto getBehaviorParameter() const -> traffic_simulator_msgs::msg::BehaviorParameter { return behavior_parameter; }
  auto setBehaviorParameter(const traffic_simulator_msgs::msg::BehaviorParameter & p) -> void { behavior_parameter = p; }
  auto getCurrentAction() const -> std::string { return action; }

  // requests
  auto setVelocityLimit(double x) -> void { record("setVelocityLimit", name, x); }
  auto setLateralCollisionThreshold(const std::optional<double> & x) -> void
  {
    if (x)
      record("setLateralCollisionThreshold", name, *x);
    else
      record("setLateralCollisionThreshold", name);
  }
  template <typename... Ts> auto requestAcquirePosition(Ts &&... xs) -> void { record("requestAcquirePosition", name, xs...); }
  template <typename... Ts> auto requestAssignRoute(Ts &&... xs) -> void { record("requestAssignRoute", name, xs...); }
  template <typename... Ts> auto requestFollowTrajectory(Ts &&... xs) -> void { record("requestFollowTrajectory", name, xs...); }
  template <typename... Ts> auto requestLaneChange(Ts &&... xs) -> void { record("requestLaneChange", name, xs...); }
  template <typename... Ts> auto requestSpeedChange(Ts &&... xs) -> void { record("requestSpeedChange", name, xs...); }
  template <typename... Ts> auto requestWalkStraight(Ts &&... xs) -> void { record("requestWalkStraight", name, xs...); }
  auto setStatus(const geometry_msgs::msg::Pose & pose) -> void { record("setStatus", name, pose); }
  auto setStatus(const geometry_msgs::msg::Pose & reference, const geometry_msgs::msg::Pose & relative) -> void { record("setStatus", name, reference, relative); }
  auto setStatus(const geometry_msgs::msg::Pose & reference, const geometry_msgs::msg::Point & position, const geometry_msgs::msg::Vector3 & rpy) -> void { record("setStatus", name, reference, position, rpy); }
  auto setStatus(const CanonicalizedLaneletPose & pose) -> void { record("setStatus", name, pose); }
  auto setStatus(const LaneletPose & pose) -> void { record("setStatus", name, pose); }
  template <typename... Ts> auto activateOutOfRangeJob(Ts &&... xs) -> void { record("activateOutOfRangeJob", name, xs...); }
};
struct EgoEntity : public EntityBase
{
  auto engage() -> void;
  auto isEngageable() const -> bool;
  auto isEngaged() const -> bool;
  auto getMinimumRiskManeuverBehaviorName() const -> std::string;
  auto getMinimumRiskManeuverStateName() const -> std::string;
  auto getEmergencyStateName() const -> std::string;
  auto getTurnIndicatorsCommandName() const -> std::string;
  auto requestAutoModeForCooperation(const std::string & module, bool enabled) -> void { record("requestAutoModeForCooperation", name, module, enabled); }
  template <typename... Ts> auto sendCooperateCommand(Ts &&... xs) -> void { record("sendCooperateCommand", xs...); }
  template <typename T> auto setParameter(const std::string & parameter, const T & x) -> void { record("setParameter", name, parameter, x); }
};
}  // namespace entity

struct TrafficLightsStandIn
{
  std::string channel;
  std::map<std::int64_t, std::string> composed_state;
  std::map<std::int64_t, std::set<std::string>> states;
  template <typename... Ts> auto setTrafficLightsState(Ts &&... xs) -> void { record(channel + ".setTrafficLightsState", xs...); }
  template <typename... Ts> auto clearTrafficLightsState(Ts &&... xs) -> void { record(channel + ".clearTrafficLightsState", xs...); }
  template <typename... Ts> auto addTrafficLightsState(Ts &&... xs) -> void { record(channel + ".addTrafficLightsState", xs...); }
  template <typename... Ts> auto clearState(Ts &&... xs) -> void { record(channel + ".clearState", xs...); }
  template <typename... Ts> auto addState(Ts &&... xs) -> void { record(channel + ".addState", xs...); }
  template <typename... Ts> auto setTrafficLightsConfidence(Ts &&... xs) -> void { record(channel + ".setTrafficLightsConfidence", xs...); }
  auto getTrafficLightsComposedState(std::int64_t id) -> std::string { return composed_state[id]; }
  auto compareTrafficLightsState(std::int64_t id, const std::string & state) -> bool { return states[id].count(state) != 0; }
  template <typename... Ts> auto resetUpdate(Ts &&... xs) -> void { record(channel + ".resetUpdate", xs...); }
  template <typename... Ts> auto addTrafficLightsStatePrediction(Ts &&... xs) -> void { record(channel + ".addTrafficLightsStatePrediction", xs...); }
  template <typename... Ts> auto clearTrafficLightsStatePredictions(Ts &&... xs) -> void { record(channel + ".clearTrafficLightsStatePredictions", xs...); }
};

// what the simulator knows: set by the harness
struct World
{
  double time = 0;
  std::map<std::string, std::shared_ptr<entity::EgoEntity>> entities;
  std::set<std::string> collisions;  // "a/b": these two touch
  std::set<std::int64_t> v2i;        // traffic lights that send their state
  std::shared_ptr<TrafficLightsStandIn> conventional = lights("conventional"), conventional_detected = lights("conventional_detected"), v2i_lights = lights("v2i"), v2i_detected = lights("v2i_detected");
  static auto lights(const char * channel) -> std::shared_ptr<TrafficLightsStandIn>
  {
    auto result = std::make_shared<TrafficLightsStandIn>();
    result->channel = channel;
    return result;
  }
};
inline World world;

class API
{
public:
  template <typename... Ts> explicit API(Ts &&...) {}
  auto getCurrentTime() const -> double { return world.time; }
  auto getEntityPointer(const std::string & name) const -> std::shared_ptr<entity::EntityBase>
  {
    if (auto found = world.entities.find(name); found != world.entities.end()) return found->second;
    return nullptr;
  }
  auto getEntity(const std::string & name) const -> entity::EntityBase &
  {
    if (auto found = world.entities.find(name); found != world.entities.end()) return *found->second;
    THROW_SEMANTIC_ERROR("entity : ", name, " does not exist.");
  }
  auto getEgoEntity(const std::string & name) const -> entity::EgoEntity &
  {
    if (auto found = world.entities.find(name); found != world.entities.end()) return *found->second;
    THROW_SEMANTIC_ERROR("entity : ", name, " does not exist.");
  }
  auto getFirstEgoName() const -> std::optional<std::string>;
  auto updateFrame() -> bool;
  auto despawnEntities() -> void { world.entities.clear(); }
  auto closeZMQConnection() -> void {}
  auto startNpcLogic() -> void;
  auto checkCollision(const std::string & a, const std::string & b) const -> bool
  {
    return world.collisions.count(a + "/" + b) != 0 or world.collisions.count(b + "/" + a) != 0;
  }
  template <typename... Ts> auto spawn(const std::string & name, Ts &&... xs) -> entity::EntityBase &
  {
    record("spawn", name, xs...);
    auto entity = std::make_shared<entity::EgoEntity>();
    entity->name = name;
    world.entities[name] = entity;
    return *entity;
  }
  auto despawn(const std::string & name) -> bool
  {
    record("despawn", name);
    return world.entities.erase(name) > 0;
  }
  template <typename... Ts> auto attachImuSensor(Ts &&... xs) -> bool
  {
    record("attachImuSensor", xs...);
    return true;
  }
  template <typename... Ts> auto attachLidarSensor(Ts &&... xs) -> bool
  {
    record("attachLidarSensor", xs...);
    return true;
  }
  template <typename... Ts> auto attachDetectionSensor(Ts &&... xs) -> bool
  {
    record("attachDetectionSensor", xs...);
    return true;
  }
  template <typename... Ts> auto attachOccupancyGridSensor(Ts &&... xs) -> bool
  {
    record("attachOccupancyGridSensor", xs...);
    return true;
  }
  template <typename... Ts> auto attachPseudoTrafficLightDetector(Ts &&... xs) -> bool
  {
    record("attachPseudoTrafficLightDetector", xs...);
    return true;
  }
  auto setTrafficSignalV2IFeature(lanelet::Id id, bool enabled) -> void { record("setTrafficSignalV2IFeature", id, enabled); }
  auto isV2ITrafficLightEnabled(lanelet::Id id) -> bool { return world.v2i.count(id) != 0; }
  auto getConventionalTrafficLights() -> std::shared_ptr<TrafficLightsStandIn> { return world.conventional; }
  auto getConventionalDetectedTrafficLights() -> std::shared_ptr<TrafficLightsStandIn> { return world.conventional_detected; }
  auto getV2ITrafficLights() -> std::shared_ptr<TrafficLightsStandIn> { return world.v2i_lights; }
  auto getV2IDetectedTrafficLights() -> std::shared_ptr<TrafficLightsStandIn> { return world.v2i_detected; }
};
}  // namespace traffic_simulator
#endif
