// Contracts of the actions that place, route, add and delete entities: teleport_action.cpp, follow_trajectory_action.cpp,
// acquire_position_action.cpp, assign_route_action.cpp, entity_action.cpp, add_entity_action.cpp, delete_entity_action.cpp,
// position.cpp and the positions it chooses from, simulator_core.hpp.
#include "interpreter.hpp"

#include <openscenario_interpreter/syntax/acquire_position_action.hpp>
#include <openscenario_interpreter/syntax/assign_route_action.hpp>
#include <openscenario_interpreter/syntax/catalog_reference.hpp>
#include <openscenario_interpreter/syntax/entities.hpp>
#include <openscenario_interpreter/syntax/entity_action.hpp>
#include <openscenario_interpreter/syntax/entity_selection.hpp>
#include <openscenario_interpreter/syntax/follow_trajectory_action.hpp>
#include <openscenario_interpreter/syntax/scenario_object.hpp>
#include <openscenario_interpreter/syntax/teleport_action.hpp>
#undef private
#undef protected

#include <common/scenario_simulator_exception/src/scenario_simulator_exception.cpp>
#include <openscenario/openscenario_interpreter/src/object.cpp>
#include <openscenario/openscenario_interpreter/src/scope.cpp>
#include <openscenario/openscenario_interpreter/src/reader/attribute.cpp>
#include <openscenario/openscenario_interpreter/src/reader/element.cpp>
#include <openscenario/openscenario_interpreter/src/utility/demangle.cpp>
#define SOURCE(x) <openscenario/openscenario_interpreter/src/syntax/x.cpp>
#include SOURCE(boolean)
#include SOURCE(integer)
#include SOURCE(double)
#include SOURCE(unsigned_integer)
#include SOURCE(entity)
#include SOURCE(entities)
#include SOURCE(entity_selection)
#include SOURCE(selected_entities)
#include SOURCE(by_type)
#include SOURCE(object_type)
#include SOURCE(entity_object)
#include SOURCE(object_controller)
#include SOURCE(scenario_object)
#include SOURCE(misc_object)
#include SOURCE(misc_object_category)
#include SOURCE(pedestrian)
#include SOURCE(pedestrian_category)
#include SOURCE(vehicle)
#include SOURCE(vehicle_category)
#include SOURCE(performance)
#include SOURCE(axles)
#include SOURCE(axle)
#include SOURCE(parameter_declarations)
#include SOURCE(bounding_box)
#include SOURCE(center)
#include SOURCE(dimensions)
#include SOURCE(properties)
#include SOURCE(property)
#include SOURCE(controller)
#include SOURCE(assign_controller_action)
#include SOURCE(position)
#include SOURCE(world_position)
#include SOURCE(relative_world_position)
#include SOURCE(relative_object_position)
#include SOURCE(lane_position)
#include SOURCE(orientation)
#include SOURCE(reference_context)
#include SOURCE(teleport_action)
#include SOURCE(add_entity_action)
#include SOURCE(delete_entity_action)
#include SOURCE(entity_action)
#include SOURCE(follow_trajectory_action)
#include SOURCE(following_mode)
#include SOURCE(trajectory_following_mode)
#include SOURCE(time_reference)
#include SOURCE(timing)
#include SOURCE(trajectory)
#include SOURCE(trajectory_ref)
#include SOURCE(shape)
#include SOURCE(polyline)
#include SOURCE(vertex)
#include SOURCE(acquire_position_action)
#include SOURCE(assign_route_action)
#include SOURCE(route)
#include SOURCE(route_strategy)
#include SOURCE(waypoint)
#undef SOURCE

#include "cast.hpp"

// assumed: a canonicalized lanelet pose is the pose given; what it is on the map, and what a pose of the map is in a
// lane, is made up here so that harnesses can tell which was asked for
namespace traffic_simulator
{
inline namespace lanelet_pose
{
CanonicalizedLaneletPose::CanonicalizedLaneletPose(const LaneletPose & pose) : lanelet_pose_(pose)
{
  map_pose_.position.x = pose.s;
  map_pose_.position.y = pose.offset;
  map_pose_.position.z = pose.lanelet_id;
}
CanonicalizedLaneletPose::CanonicalizedLaneletPose(const CanonicalizedLaneletPose & other) : lanelet_pose_(other.lanelet_pose_), map_pose_(other.map_pose_) {}
CanonicalizedLaneletPose::CanonicalizedLaneletPose(CanonicalizedLaneletPose && other) noexcept : lanelet_pose_(other.lanelet_pose_), map_pose_(other.map_pose_) {}
}  // namespace lanelet_pose

inline namespace pose
{
auto toMapPose(const CanonicalizedLaneletPose & pose) -> geometry_msgs::msg::Pose { return static_cast<geometry_msgs::msg::Pose>(pose); }

auto toCanonicalizedLaneletPose(const geometry_msgs::msg::Pose & pose, bool) -> std::optional<CanonicalizedLaneletPose>
{
  if (pose.position.z < 0) return std::nullopt;
  LaneletPose result;
  result.lanelet_id = 7;
  result.s = pose.position.x;
  result.offset = pose.position.y;
  return CanonicalizedLaneletPose(result);
}

auto relativePose(const geometry_msgs::msg::Pose &, const geometry_msgs::msg::Pose & to) -> std::optional<geometry_msgs::msg::Pose> { return to; }
}  // namespace pose
}  // namespace traffic_simulator

namespace
{
auto set(const Double & x, const char * name) -> double { return const_cast<Double &>(x).data = verif::any<double>(name); }

auto quaternion(double r, double p, double h) -> geometry_msgs::msg::Quaternion
{
  geometry_msgs::msg::Vector3 v;
  v.x = r, v.y = p, v.z = h;
  return math::geometry::convertEulerAngleToQuaternion(v);
}

// a position of one of the kinds, its numbers chosen freely
struct Place
{
  double x, y, z, h, p, r;
};
enum Kind { world, relative_world, relative_object, lane };

auto position(pugi::xml_node parent, Kind kind) -> void
{
  auto node = element(parent, "Position");
  if (kind == world) {
    element(node, "WorldPosition", {{"x", "1"}, {"y", "2"}, {"z", "3"}, {"h", "4"}, {"p", "5"}, {"r", "6"}});
    return;
  }
  auto place = kind == lane ? element(node, "LanePosition", {{"roadId", ""}, {"laneId", "34513"}, {"s", "1"}, {"offset", "2"}})
                            : element(node, kind == relative_world ? "RelativeWorldPosition" : "RelativeObjectPosition", {{"entityRef", "m"}, {"dx", "1"}, {"dy", "2"}, {"dz", "3"}});
  element(place, "Orientation", {{"type", "relative"}, {"h", "4"}, {"p", "5"}, {"r", "6"}});
}

auto choose(const Position & position) -> Place
{
  const auto turn = [](auto & it) {
    verif::check(it.h == 4 and it.p == 5 and it.r == 6, "reads the orientation");
    return Place{0, 0, 0, set(it.h, "h"), set(it.p, "p"), set(it.r, "r")};
  };
  const auto move = [](Place & place, const Double & x, const Double & y, const Double & z) {
    verif::check(x == 1 and y == 2 and z == 3, "reads the point");
    place.x = set(x, "x"), place.y = set(y, "y"), place.z = set(z, "z");
  };
  if (position.is<WorldPosition>()) {
    const auto & it = position.as<WorldPosition>();
    auto place = turn(it);
    move(place, it.x, it.y, it.z);
    return place;
  } else if (position.is<LanePosition>()) {
    const auto & it = position.as<LanePosition>();
    auto place = turn(it.orientation);
    verif::check(it.s == 1 and it.offset == 2 and it.lane_id == "34513", "reads the point");
    place.x = set(it.s, "s"), place.y = set(it.offset, "offset");
    return place;
  } else if (position.is<RelativeWorldPosition>()) {
    const auto & it = position.as<RelativeWorldPosition>();
    auto place = turn(it.orientation);
    move(place, it.dx, it.dy, it.dz);
    return place;
  } else {
    const auto & it = position.as<RelativeObjectPosition>();
    auto place = turn(it.orientation);
    move(place, it.dx, it.dy, it.dz);
    return place;
  }
}

auto numbers(const geometry_msgs::msg::Pose & pose) -> std::vector<double>
{
  return {pose.position.x, pose.position.y, pose.position.z, pose.orientation.x, pose.orientation.y, pose.orientation.z, pose.orientation.w};
}

auto pose(const Place & place) -> geometry_msgs::msg::Pose
{
  geometry_msgs::msg::Pose result;
  result.position.x = place.x, result.position.y = place.y, result.position.z = place.z;
  result.orientation = quaternion(place.r, place.p, place.h);
  return result;
}

auto anywhere(Cast & cast, const char * name) -> geometry_msgs::msg::Pose
{
  auto & pose = cast.record(name).map_pose;
  pose.position.x = verif::any<double>("reference_x");
  pose.position.y = verif::any<double>("reference_y");
  pose.position.z = verif::any<double>("reference_z");
  return pose;
}
}  // namespace

// every actor is placed where the action says, at once
VERIF_HARNESS(teleport, "")
{
  Cast cast;
  cast.act("a"), cast.act("s");
  const auto kind = static_cast<Kind>(verif::any_in("kind", 0, 3));
  auto node = element(cast.document, "TeleportAction");
  position(node, kind);
  TeleportAction action(node, cast.scope);
  const auto place = choose(action.position);
  const auto reference = anywhere(cast, "m");
  auto expected = numbers(kind == world ? pose(place) : reference);
  if (kind == lane)
    expected = {34513, place.x, place.y, place.r, place.p, place.h};
  else if (kind != world)
    for (const auto x : {place.x, place.y, place.z, place.r, place.p, place.h}) expected.push_back(x);
  action.start();
  const auto requests = requested();
  verif::check(requests.size() == 3 and action.accomplished() and action.endsImmediately(), "places every object at once");
  for (const auto & [name, request] : requests) verif::check(made_of(request, "setStatus", expected), "where it says");
}

// an entity that is not in the simulation yet is added where the action says
VERIF_HARNESS(teleport_adds, "")
{
  Cast cast;
  cast.act("a");
  cast.object("a").is_added = false;
  traffic_simulator::world.entities.erase("a");
  auto node = element(cast.document, "TeleportAction");
  position(node, world);
  TeleportAction action(node, cast.scope);
  const auto place = choose(action.position);
  action.start();
  const auto & requests = traffic_simulator::requests;
  verif::check(requests.size() >= 2 and made_of(requests[0], "spawn", numbers(pose(place))) and made_of(requests[1], "setStatus", numbers(pose(place))), "spawns and places it");
  verif::check(requests[0].texts.front() == "a" and requests[1].texts.front() == "a" and requests[0].pedestrian, "the pedestrian named");
  verif::check(cast.object("a").is_added, "which is then regarded as added");
  traffic_simulator::requests.clear();
  action.start();
  verif::check(requests.size() == 1 and requests[0].what == "setStatus", "and only placed from then on");
}

namespace
{
struct Follow : public Cast
{
  std::unique_ptr<FollowTrajectoryAction> action;
  std::vector<Place> places;
  std::vector<double> times;
  // reference: no time reference, or an absolute or a relative one
  Follow(int mode, int reference, bool closed)
  {
    act("a"), act("s");
    const char * const modes[] = {"follow", "position"};
    auto node = element(document, "FollowTrajectoryAction", {{"initialDistanceOffset", "1"}});
    auto time = element(node, "TimeReference");
    if (reference == 0)
      element(time, "None");
    else
      element(time, "Timing", {{"domainAbsoluteRelative", reference == 1 ? "absolute" : "relative"}, {"offset", "2"}, {"scale", "3"}});
    element(node, "TrajectoryFollowingMode", {{"followingMode", modes[mode]}});
    auto trajectory = element(element(node, "TrajectoryRef"), "Trajectory", {{"closed", closed ? "true" : "false"}, {"name", "t"}});
    element(trajectory, "ParameterDeclarations");
    auto polyline = element(element(trajectory, "Shape"), "Polyline");
    position(element(polyline, "Vertex", {{"time", "4"}}), world);
    position(element(polyline, "Vertex"), lane);
    action = std::make_unique<FollowTrajectoryAction>(node, scope);
  }
  auto vertices() -> const auto & { return action->trajectory_ref.trajectory.as<Trajectory>().shape.as<Polyline>().vertices; }
};
using verif::same;
auto same(const geometry_msgs::msg::Pose & a, const geometry_msgs::msg::Pose & b) -> bool
{
  const auto x = numbers(a), y = numbers(b);
  for (std::size_t i = 0; i < x.size(); ++i)
    if (not same(x[i], y[i])) return false;
  return true;
}
}  // namespace

// every actor is asked to follow the trajectory from where it is
VERIF_HARNESS(follow_trajectory, "")
{
  const auto mode = verif::any_in("mode", 0, 1), reference = verif::any_in("reference", 0, 1) * 2;  // absolute times are not supported
  Follow cast(mode, reference, mode == reference);
  auto & action = *cast.action;
  verif::check(cast.vertices().size() == 2, "reads all vertices");
  const auto & first = cast.vertices().front();
  const auto & last = cast.vertices().back();
  const auto place = choose(first.position);
  choose(last.position);
  verif::check(first.time == 4 and std::isnan(last.time.data), "reads the times");
  const double time = set(first.time, "time"), distance = set(action.initial_distance_offset, "distance");
  double offset = 0, scale = 0;
  if (reference != 0) offset = set(action.time_reference.as<Timing>().offset, "offset"), scale = set(action.time_reference.as<Timing>().scale, "scale");
  const double now = traffic_simulator::world.time = verif::any<double>("now");
  for (const auto & name : {"a", "b", "c"}) anywhere(cast, name);
  action.start();
  const auto requests = requested();
  verif::check(requests.size() == 3, "every object");
  std::set<traffic_simulator_msgs::msg::PolylineTrajectory *> distinct;
  for (const auto & [name, request] : requests) {
    verif::check(request.what == "requestFollowTrajectory" and request.trajectory, "is asked to follow a trajectory");
    const auto & trajectory = *request.trajectory;
    distinct.insert(request.trajectory.get());
    verif::check(same(trajectory.initial_distance_offset, distance) and trajectory.dynamic_constraints_ignorable == (mode == 1) and trajectory.closed == (action.trajectory_ref.trajectory.as<Trajectory>().closed ? true : false), "the distance, mode and closure given");
    verif::check(same(trajectory.base_time, reference == 2 ? now : std::numeric_limits<double>::quiet_NaN()), "times are relative to now only when said");
    const auto & vertices = trajectory.shape.vertices;
    verif::check(vertices.size() == 3 and std::isnan(vertices[0].time) and same(vertices[0].position, cast.record(name).map_pose), "from its own pose");
    verif::check(same(vertices[1].position, pose(place)) and same(vertices[2].position, static_cast<geometry_msgs::msg::Pose>(last.position)), "through all vertices in order");
    verif::check(same(vertices[1].time, reference == 0 ? std::numeric_limits<double>::quiet_NaN() : offset + scale * time) and std::isnan(vertices[2].time), "at the times given");
  }
  verif::check(distinct.size() == 3, "each a trajectory of its own");
}

VERIF_HARNESS(trajectory_followed, "cover=done,cover=running")
{
  const bool closed = verif::any_in("closed", 0, 1) == 1;
  Follow cast(0, 0, closed);
  auto & action = *cast.action;
  action.start();
  for (const auto & name : {"a", "b", "c"}) cast.record(name).action = verif::any<bool>("behaves") ? "follow_polyline_trajectory" : "stop";
  verif::check(not action.accomplished(), "takes a frame to begin");
  const bool done = action.accomplished();
  bool running = false;
  for (const auto & name : {"a", "b", "c"}) running = running or cast.record(name).action != "stop";
  verif::check(done == (not closed and not running), "ends when no actor follows it any more, and never when it is closed");
  for (const auto & name : {"a", "b", "c"}) cast.record(name).action = "stop";
  verif::check(action.accomplished() == not closed, "all have ended");
  for (const auto & name : {"a", "b", "c"}) cast.record(name).action = "follow_polyline_trajectory";
  verif::check(action.accomplished() == not closed, "an actor that has ended does not start again");
  if (done)
    verif::cover("done");
  else
    verif::cover("running");
}

namespace
{
auto vehicle(pugi::xml_node parent, const char * name, const char * category = "car") -> pugi::xml_node
{
  auto object = element(parent, "ScenarioObject", {{"name", name}});
  auto vehicle = element(object, "Vehicle", {{"name", "sample"}, {"vehicleCategory", category}, {"model3d", "m3d"}});
  element(vehicle, "ParameterDeclarations");
  bounding_box(vehicle);
  element(vehicle, "Performance", {{"maxSpeed", "7"}, {"maxAcceleration", "8"}, {"maxDeceleration", "9"}});
  auto axles = element(vehicle, "Axles");
  element(axles, "FrontAxle", {{"maxSteering", "1"}, {"wheelDiameter", "2"}, {"trackWidth", "3"}, {"positionX", "4"}, {"positionZ", "5"}});
  element(axles, "RearAxle", {{"maxSteering", "6"}, {"wheelDiameter", "7"}, {"trackWidth", "8"}, {"positionX", "9"}, {"positionZ", "10"}});
  element(vehicle, "Properties");
  return object;
}

auto controller(pugi::xml_node object, const char * name, const Attributes & properties) -> void
{
  auto controller = element(element(object, "ObjectController"), "Controller", {{"name", name}});
  auto node = element(controller, "Properties");
  for (const auto & [key, value] : properties) element(node, "Property", {{"name", key}, {"value", value}});
}

// a scenario of entities declared by the harness, none of them in the simulation yet
struct Declared : public World
{
  pugi::xml_node node;
  std::unique_ptr<Entities> entities;
  Declared() : node(element(document, "Entities")) {}
  auto read() -> void { entities = std::make_unique<Entities>(node, scope); }
  auto object(const std::string & name) -> ScenarioObject & { return Entity(name, scope).as<ScenarioObject>(); }
  auto action(const char * kind, const char * name) -> EntityAction
  {
    auto it = element(document, "EntityAction", {{"entityRef", name}});
    auto inner = element(it, kind);
    if (std::string(kind) == "AddEntityAction") position(inner, lane);
    return EntityAction(it, scope);
  }
  auto requests_of(const char * what) -> std::vector<traffic_simulator::Request>
  {
    std::vector<traffic_simulator::Request> result;
    for (const auto & request : traffic_simulator::requests)
      if (request.what == what) result.push_back(request);
    return result;
  }
};

const std::vector<double> there = {34513, 1, 2, 6, 5, 4};
auto boxed(const traffic_simulator_msgs::msg::BoundingBox & box) -> bool
{
  return box.center.x == 1 and box.center.y == 2 and box.center.z == 3 and box.dimensions.x == 5 and box.dimensions.y == 4 and box.dimensions.z == 6;
}
}  // namespace

VERIF_HARNESS(add_vehicle, "")
{
  Declared world;
  auto node = vehicle(world.node, "v");
  const auto control = verif::any_in("control", 0, 4);
  if (control == 1) controller(node, "", {});
  if (control == 2) controller(node, "ContextGamma", {{"isEgo", "false"}, {"minJerk", "-3"}, {"maxJerk", "4"}});
  if (control == 3) controller(node, "", {{"isEgo", "true"}});
  if (control == 4) controller(node, "Autoware", {});
  world.read();
  verif::check(not world.object("v").is_added and traffic_simulator::requests.empty(), "is not there when it is declared");
  world.action("AddEntityAction", "v").start();
  const auto spawned = world.requests_of("spawn");
  verif::check(spawned.size() == 1 and made_of(spawned[0], "spawn", there), "spawned once where the action says");
  verif::check(spawned[0].texts.size() == 3 and spawned[0].texts[0] == "v" and spawned[0].texts[2] == "m3d", "under its name, with its model");
  verif::check(spawned[0].texts[1] == (control <= 1 ? "BehaviorTree" : control == 2 ? "ContextGamma" : "Autoware"), "driven by its controller");
  verif::check(world.object("v").is_added, "and is regarded as added");
  const auto & vehicle = spawned[0].vehicle;
  verif::check(vehicle and vehicle->name == "sample" and vehicle->subtype.value == traffic_simulator_msgs::msg::EntitySubtype::CAR and boxed(vehicle->bounding_box), "a vehicle of the size declared");
  verif::check(vehicle->performance.max_speed == 7 and vehicle->performance.max_acceleration == 8 and vehicle->performance.max_deceleration == 9 and std::isinf(vehicle->performance.max_acceleration_rate) and std::isinf(vehicle->performance.max_deceleration_rate), "and performance");
  const auto & front = vehicle->axles.front_axle;
  const auto & rear = vehicle->axles.rear_axle;
  verif::check(front.max_steering == 1 and front.wheel_diameter == 2 and front.track_width == 3 and front.position_x == 4 and front.position_z == 5, "and front axle");
  verif::check(rear.max_steering == 6 and rear.wheel_diameter == 7 and rear.track_width == 8 and rear.position_x == 9 and rear.position_z == 10, "and rear axle");
  const auto limits = world.requests_of("activateOutOfRangeJob");
  const auto max = std::numeric_limits<double>::max();
  verif::check(limits.size() == 1 and made_of(limits[0], "activateOutOfRangeJob", {-7, 7, -9, 8, control == 2 ? -3 : -max, control == 2 ? 4 : max}), "which it is held to");
  verif::check(world.requests_of("setVelocityLimit").size() == (control == 0 ? 0 : 1), "its controller is assigned");
  verif::check(throws([&]() { world.action("AddEntityAction", "v").start(); }), "it is not added twice");
}

VERIF_HARNESS(add_others, "")
{
  Declared world;
  const auto kind = verif::any_in("kind", 0, 2);
  if (kind == 0)
    obstacle(world.node, "x");
  else {
    auto node = pedestrian(world.node, "x");
    if (kind == 2) controller(node, "ContextGamma", {});
  }
  world.read();
  world.action("AddEntityAction", "x").start();
  const auto spawned = world.requests_of("spawn");
  verif::check(spawned.size() == 1 and made_of(spawned[0], "spawn", there) and spawned[0].texts.size() == 3 and spawned[0].texts[0] == "x", "spawned once where the action says");
  verif::check(spawned[0].texts[1] == (kind == 0 ? "" : kind == 1 ? "BehaviorTree" : "ContextGamma"), "driven by its controller");
  verif::check(kind == 0 ? spawned[0].misc_object and spawned[0].misc_object->name == "box" and boxed(spawned[0].misc_object->bounding_box) : spawned[0].pedestrian and spawned[0].pedestrian->name == "walker" and boxed(spawned[0].pedestrian->bounding_box), "of the kind and size declared");
  verif::check(kind == 0 or spawned[0].pedestrian->subtype.value == traffic_simulator_msgs::msg::EntitySubtype::PEDESTRIAN, "and category");
  verif::check(made_of(world.requests_of("setStatus").at(0), "setStatus", there) and world.object("x").is_added, "placed and added");
}

VERIF_HARNESS(delete_entity, "")
{
  Declared world;
  pedestrian(world.node, "x");
  pedestrian(world.node, "y");
  world.read();
  world.action("AddEntityAction", "x").start();
  world.action("AddEntityAction", "y").start();
  traffic_simulator::requests.clear();
  auto action = world.action("DeleteEntityAction", "x");
  verif::check(action.endsImmediately() and action.accomplished(), "at once");
  action.start();
  verif::check(traffic_simulator::requests.size() == 1 and made_of(traffic_simulator::requests[0], "despawn", {}) and traffic_simulator::requests[0].texts[0] == "x", "despawns the entity");
  verif::check(not world.object("x").is_added and world.object("y").is_added, "which is no longer there, and no other");
  verif::check(not world.scope.global().entities->isAdded(Entity("x", world.scope)), "for conditions either");
  world.action("AddEntityAction", "x").start();
  verif::check(world.object("x").is_added and world.requests_of("spawn").size() == 1, "it can come back");
  verif::check(throws([&]() { world.action("DeleteEntityAction", "z"); }), "entities that were not declared cannot be deleted");
}

// what controllers are asked for is passed on, and what they are not asked for has its default
VERIF_HARNESS(assign_controller, "")
{
  Declared world;
  auto node = pedestrian(world.node, "x");
  const auto asked = verif::any_in("asked", 0, 1);
  if (asked == 1)
    controller(node, "", {{"maxSpeed", "1"}, {"lateralCollisionThreshold", "2"}, {"isBlind", "true"}, {"maxAcceleration", "3"}, {"maxAccelerationRate", "4"}, {"maxDeceleration", "5"}, {"maxDecelerationRate", "6"}});
  else
    controller(node, "", {{"maxAcceleration", ""}});
  world.read();
  world.action("AddEntityAction", "x").start();
  const auto limit = world.requests_of("setVelocityLimit"), threshold = world.requests_of("setLateralCollisionThreshold");
  verif::check(limit.size() == 1 and made_of(limit[0], "setVelocityLimit", {asked == 1 ? 1 : std::numeric_limits<double>::max()}), "speed limit");
  verif::check(threshold.size() == 1 and made_of(threshold[0], "setLateralCollisionThreshold", asked == 1 ? std::vector<double>{2} : std::vector<double>{}), "threshold");
  const auto & behavior = traffic_simulator::world.entities.at("x")->behavior_parameter;
  const auto & constraints = behavior.dynamic_constraints;
  verif::check(behavior.see_around == (asked == 0), "blindness");
  verif::check(constraints.max_acceleration == (asked == 1 ? 3 : 10) and constraints.max_acceleration_rate == (asked == 1 ? 4 : 3) and constraints.max_deceleration == (asked == 1 ? 5 : 10) and constraints.max_deceleration_rate == (asked == 1 ? 6 : 3) and constraints.max_speed == (asked == 1 ? 1 : 50), "constraints");
}

// the vehicle that is driven by Autoware gets its sensors, as its controller says
VERIF_HARNESS(ego, "")
{
  Declared world;
  const auto asked = verif::any_in("asked", 0, 1);
  auto node = vehicle(world.node, "ego");
  if (asked == 1)
    controller(node, "", {{"isEgo", "true"}, {"allowGoalModification", "true"}, {"featureIdentifiersRequiringExternalPermissionForAutonomousDecisions", "intersection, crosswalk"},
                          {"isClairvoyant", "true"}, {"detectedObjectPublishingDelay", "1"}, {"detectedObjectPositionStandardDeviation", "2"}, {"detectedObjectMissingProbability", "0.5"},
                          {"randomSeed", "3"}, {"detectionSensorRange", "4"}, {"detectedObjectGroundTruthPublishingDelay", "5"}, {"pointcloudPublishingDelay", "6"}, {"pointcloudChannels", "2"}, {"pointcloudVerticalFieldOfView", "180"}, {"pointcloudHorizontalResolution", "180"}});
  else
    controller(node, "", {{"isEgo", "true"}});
  vehicle(world.node, "other");
  world.read();
  world.action("AddEntityAction", "ego").start();
  const auto sensor = [&](const char * what) {
    const auto found = world.requests_of(what);
    verif::check(found.size() == 1 and found[0].sensor, "one of each sensor");
    return *found[0].sensor;
  };
  using Numbers = std::vector<double>;
  auto detection = sensor("attachDetectionSensor");
  verif::check(detection.texts["entity"] == "ego" and detection.texts["architecture_type"] == "awf/universe/20240605", "detection of the vehicle");
  verif::check(detection.numbers["detect_all_objects_in_range"] == Numbers{double(asked)}, "seeing everything only when it is clairvoyant");
  verif::check(detection.numbers["object_recognition_delay"] == Numbers{asked == 1 ? 1. : 0.} and detection.numbers["pos_noise_stddev"] == Numbers{asked == 1 ? 2. : 0.} and detection.numbers["probability_of_lost"] == Numbers{asked == 1 ? .5 : 0.} and detection.numbers["random_seed"] == Numbers{asked == 1 ? 3. : 0.}, "with the delay and noise given");
  verif::check(detection.numbers["range"] == Numbers{asked == 1 ? 4. : 300.} and detection.numbers["object_recognition_ground_truth_delay"] == Numbers{asked == 1 ? 5. : 0.}, "in the range given");
  auto lidar = sensor("attachLidarSensor");
  verif::check(lidar.texts["entity"] == "ego" and lidar.numbers["lidar_sensor_delay"] == Numbers{asked == 1 ? 6. : 0.} and lidar.numbers["vertical_angles"].size() == (asked == 1 ? 2 : 16), "lidar with the channels given");
  const auto pi = boost::math::constants::pi<double>();
  verif::check(asked == 0 or (lidar.numbers["vertical_angles"] == Numbers{pi / 2, 0} and lidar.numbers["horizontal_resolution"] == Numbers{pi}), "over the field of view");
  auto grid = sensor("attachOccupancyGridSensor");
  verif::check(grid.texts["entity"] == "ego" and grid.numbers["filter_by_range"] == Numbers{double(asked)}, "occupancy grid");
  verif::check(sensor("attachImuSensor").texts["entity"] == "ego" and world.requests_of("attachPseudoTrafficLightDetector").size() == 1, "and the others");
  const auto goal = world.requests_of("setParameter"), modules = world.requests_of("requestAutoModeForCooperation");
  verif::check(goal.size() == (asked == 1 ? 1 : 0) and (asked == 0 or (goal[0].texts[1] == "allow_goal_modification" and made_of(goal[0], "setParameter", {1}))), "goals may be modified when said");
  verif::check(modules.size() == (asked == 1 ? 2 : 0) and (asked == 0 or (modules[0].texts[1] == "intersection" and modules[1].texts[1] == "crosswalk" and made_of(modules[0], "requestAutoModeForCooperation", {0}))), "modules ask for permission when said");
  traffic_simulator::requests.clear();
  world.action("AddEntityAction", "other").start();
  verif::check(world.requests_of("attachLidarSensor").empty() and world.requests_of("attachDetectionSensor").empty(), "other vehicles have no sensors");
}

VERIF_HARNESS(vehicle_categories, "")
{
  Scope scope{nullptr};
  using Subtype = traffic_simulator_msgs::msg::EntitySubtype;
  const std::vector<std::pair<const char *, int>> categories = {{"car", Subtype::CAR}, {"truck", Subtype::TRUCK}, {"bus", Subtype::BUS}, {"trailer", Subtype::TRAILER}, {"motorbike", Subtype::MOTORCYCLE}, {"bicycle", Subtype::BICYCLE}, {"van", Subtype::UNKNOWN}, {"train", Subtype::UNKNOWN}, {"tram", Subtype::UNKNOWN}, {"semitrailer", Subtype::UNKNOWN}};
  for (const auto & [name, subtype] : categories) {
    pugi::xml_document document;
    element(document, "Vehicle", {{"vehicleCategory", name}});
    const auto category = readAttribute<VehicleCategory>("vehicleCategory", document.child("Vehicle"), scope);
    verif::check(static_cast<Subtype>(category).value == subtype, "the simulator's subtype of the category");
  }
}

namespace
{
// a vehicle driven by Autoware and a pedestrian, and parameters of the scenario
struct Routed : public Declared
{
  bool property, parameter, ids;  // what is said of goal modification by the controller, by a parameter, and of lane ids
  int said;                       // 0 nothing, 1 parameters, 2 property, 3 both
  Routed() : said(verif::any_in("said", 0, 3))
  {
    property = verif::any<bool>("property"), parameter = verif::any<bool>("parameter"), ids = verif::any<bool>("ids");
    auto ego = vehicle(node, "ego");
    if (said & 2)
      controller(ego, "", {{"isEgo", "true"}, {"allowGoalModification", property ? "true" : "false"}});
    else
      controller(ego, "", {{"isEgo", "true"}});
    controller(vehicle(node, "npc"), "", {{"allowGoalModification", "true"}});
    read();
    for (const auto & name : {"ego", "npc"}) {
      auto record = std::make_shared<traffic_simulator::entity::EgoEntity>();
      record->name = name;
      traffic_simulator::world.entities[name] = record;
      object(name).is_added = true;
      scope.actors.push_back(Entity(name, scope));
    }
    if (said & 1) {
      scope.insert("RoutingAction__allow_goal_modification", make<Boolean>(parameter));
      scope.insert("RoutingAction__use_lane_ids_for_routing", make<Boolean>(ids));
    }
  }
  auto options(const std::string & name) const -> std::vector<double>
  {
    const bool ego = name == "ego";
    return {double((ego and said & 2) ? property : (said & 1) ? parameter : false), double((said & 1) ? ids : false)};
  }
};
auto together(std::vector<double> a, const std::vector<double> & b) -> std::vector<double>
{
  for (const auto x : b) a.push_back(x);
  return a;
}
}  // namespace

// every actor is asked to go to the position, with the options of its controller or else of the scenario
VERIF_HARNESS(acquire_position, "")
{
  Routed cast;
  const auto kind = verif::any_in("kind", 0, 2);
  auto node = element(cast.document, "AcquirePositionAction");
  position(node, kind == 0 ? world : kind == 1 ? lane : relative_world);
  if (kind == 2) {
    node.child("Position").child("RelativeWorldPosition").attribute("entityRef") = "npc";
    AcquirePositionAction action(node, cast.scope);
    verif::check(throws([&]() { action.start(); }), "relative positions are not lanes");
    return;
  }
  AcquirePositionAction action(node, cast.scope);
  const auto place = choose(action.position);
  action.start();
  const auto requests = requested();
  verif::check(requests.size() == 2, "every actor");
  for (const auto & [name, request] : requests)
    verif::check(made_of(request, "requestAcquirePosition", together(kind == 0 ? numbers(pose(place)) : std::vector<double>{34513, place.x, place.y, place.r, place.p, place.h}, cast.options(name))), "goes where it says, as it may");
}

VERIF_HARNESS(assign_route, "")
{
  Routed cast;
  auto node = element(cast.document, "AssignRouteAction");
  auto route = element(node, "Route", {{"name", "r"}, {"closed", "false"}});
  element(route, "ParameterDeclarations");
  position(element(route, "Waypoint", {{"routeStrategy", "shortest"}}), lane);
  position(element(route, "Waypoint", {{"routeStrategy", "shortest"}}), lane);
  AssignRouteAction action(node, cast.scope);
  const auto & waypoints = action.route.as<Route>().waypoints;
  verif::check(waypoints.size() == 2 and action.endsImmediately() and action.accomplished(), "reads all waypoints");
  std::vector<double> expected;
  for (const auto & waypoint : waypoints) {
    const auto place = choose(waypoint.position);
    expected = together(expected, {34513, place.x, place.y, place.r, place.p, place.h});
  }
  action.start();
  const auto requests = requested();
  verif::check(requests.size() == 2, "every actor");
  for (const auto & [name, request] : requests) verif::check(made_of(request, "requestAssignRoute", together(expected, cast.options(name))), "goes through all waypoints in order, as it may");
}
