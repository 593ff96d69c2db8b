// Contracts of the private actions: speed_action.cpp, speed_profile_action.cpp, lane_change_action.cpp,
// teleport_action.cpp, follow_trajectory_action.cpp, acquire_position_action.cpp, entity_action.cpp,
// delete_entity_action.cpp, simulator_core.hpp and what they are made of.
#include "interpreter.hpp"

#include <openscenario_interpreter/syntax/acquire_position_action.hpp>
#include <openscenario_interpreter/syntax/entities.hpp>
#include <openscenario_interpreter/syntax/entity_action.hpp>
#include <openscenario_interpreter/syntax/entity_selection.hpp>
#include <openscenario_interpreter/syntax/follow_trajectory_action.hpp>
#include <openscenario_interpreter/syntax/lane_change_action.hpp>
#include <openscenario_interpreter/syntax/scenario_object.hpp>
#include <openscenario_interpreter/syntax/speed_action.hpp>
#include <openscenario_interpreter/syntax/speed_condition.hpp>
#include <openscenario_interpreter/syntax/speed_profile_action.hpp>
#include <openscenario_interpreter/syntax/teleport_action.hpp>
#undef private
#undef protected

#include <common/scenario_simulator_exception/src/scenario_simulator_exception.cpp>
#include <openscenario/openscenario_interpreter/src/object.cpp>
#include <openscenario/openscenario_interpreter/src/scope.cpp>
#include <openscenario/openscenario_interpreter/src/reader/attribute.cpp>
#include <openscenario/openscenario_interpreter/src/reader/element.cpp>
#include <openscenario/openscenario_interpreter/src/utility/demangle.cpp>
#define SOURCE(x) <openscenario/openscenario_interpreter/src/syntax/x.cpp>
#include SOURCE(boolean)
#include SOURCE(integer)
#include SOURCE(double)
#include SOURCE(rule)
#include SOURCE(entity)
#include SOURCE(entities)
#include SOURCE(entity_selection)
#include SOURCE(selected_entities)
#include SOURCE(by_type)
#include SOURCE(object_type)
#include SOURCE(entity_object)
#include SOURCE(object_controller)
#include SOURCE(scenario_object)
#include SOURCE(misc_object)
#include SOURCE(misc_object_category)
#include SOURCE(pedestrian)
#include SOURCE(pedestrian_category)
#include SOURCE(parameter_declarations)
#include SOURCE(bounding_box)
#include SOURCE(center)
#include SOURCE(dimensions)
#include SOURCE(properties)
#include SOURCE(controller)
#include SOURCE(dynamics_shape)
#include SOURCE(dynamics_dimension)
#include SOURCE(transition_dynamics)
#include SOURCE(absolute_target_speed)
#include SOURCE(relative_target_speed)
#include SOURCE(speed_target_value_type)
#include SOURCE(speed_action_target)
#include SOURCE(speed_condition)
#include SOURCE(speed_action)
#include SOURCE(absolute_target_lane)
#include SOURCE(relative_target_lane)
#include SOURCE(lane_change_target)
#include SOURCE(lane_change_action)
#include SOURCE(unsigned_integer)
#include SOURCE(following_mode)
#include SOURCE(dynamic_constraints)
#include SOURCE(speed_profile_entry)
#include SOURCE(speed_profile_action)
#undef SOURCE

#include "cast.hpp"

namespace
{
const char * const shapes[] = {"linear", "step"};

auto dynamics(pugi::xml_node parent, const char * kind, const char * shape, const char * dimension) -> pugi::xml_node
{
  return element(parent, kind, {{"dynamicsShape", shape}, {"value", "4"}, {"dynamicsDimension", dimension}});
}

auto speed_action(Cast & cast, int shape) -> pugi::xml_node
{
  auto node = element(cast.document, "SpeedAction");
  dynamics(node, "SpeedActionDynamics", shapes[shape], "rate");
  return node;
}

using traffic_simulator::speed_change::Transition;
constexpr double linear_transition = static_cast<double>(Transition::LINEAR), step_transition = static_cast<double>(Transition::STEP);
constexpr double acceleration_constraint = static_cast<double>(traffic_simulator::speed_change::Constraint::Type::LONGITUDINAL_ACCELERATION);
}  // namespace

// an absolute speed is requested of every object the actors stand for, at the rate given, and kept
VERIF_HARNESS(absolute_speed, "")
{
  Cast cast;
  cast.act("a"), cast.act("s");
  const auto shape = verif::any_in("shape", 0, 1);
  auto node = speed_action(cast, shape);
  element(element(node, "SpeedActionTarget"), "AbsoluteTargetSpeed", {{"value", "3"}});
  SpeedAction action(node, cast.scope);
  auto & target = const_cast<Double &>(action.speed_action_target.as<AbsoluteTargetSpeed>().value);
  auto & rate = const_cast<Double &>(action.speed_action_dynamics.value);
  verif::check(target == 3 and rate == 4, "reads its target and rate");
  target.data = verif::any<double>("target");
  rate.data = verif::any<double>("rate");
  action.start();
  const auto requests = requested();
  verif::check(requests.size() == 3, "requests of every object");
  for (const auto & [name, request] : requests)
    verif::check(made_of(request, "requestSpeedChange", {target.data, shape == 0 ? linear_transition : step_transition, acceleration_constraint, rate.data, 1}), "the speed, transition and rate given");
  verif::check(action.endsImmediately() == (shape == 1), "a step ends at once");
}

VERIF_HARNESS(relative_speed, "")
{
  Cast cast;
  cast.act("s");
  const auto shape = verif::any_in("shape", 0, 1);
  const auto kind = verif::any_in("kind", 0, 1);
  const auto continuous = verif::any_in("continuous", 0, 1);
  auto node = speed_action(cast, shape);
  const char * const kinds[] = {"delta", "factor"};
  const char * const boolean[] = {"false", "true"};
  element(element(node, "SpeedActionTarget"), "RelativeTargetSpeed", {{"entityRef", "a"}, {"value", "3"}, {"speedTargetValueType", kinds[kind]}, {"continuous", boolean[continuous]}});
  SpeedAction action(node, cast.scope);
  auto & target = const_cast<Double &>(action.speed_action_target.as<RelativeTargetSpeed>().value);
  verif::check(target == 3, "reads its target");
  target.data = verif::any<double>("target");
  action.start();
  const auto requests = requested();
  verif::check(requests.size() == 2, "requests of every object");
  using Type = traffic_simulator::speed_change::RelativeTargetSpeed::Type;
  for (const auto & [name, request] : requests) {
    verif::check(made_of(request, "requestSpeedChange", {static_cast<double>(kind == 0 ? Type::DELTA : Type::FACTOR), target.data, shape == 0 ? linear_transition : step_transition, acceleration_constraint, 4, static_cast<double>(continuous)}), "the speed, transition and rate given");
    verif::check(request.texts.size() == 2 and request.texts[1] == "a", "relative to the entity given");
  }
}

namespace
{
auto near(double x, double y) -> bool { return std::abs(x - y) < std::numeric_limits<double>::epsilon(); }
}  // namespace

// the action ends when every actor has reached the speed at some time since the action started
VERIF_HARNESS(speed_reached, "cover=done,cover=running")
{
  Cast cast;
  cast.act("a"), cast.act("s");
  auto node = speed_action(cast, 0);
  element(element(node, "SpeedActionTarget"), "AbsoluteTargetSpeed", {{"value", "3"}});
  SpeedAction action(node, cast.scope);
  const auto target = const_cast<Double &>(action.speed_action_target.as<AbsoluteTargetSpeed>().value).data = verif::any<double>("target");
  action.start();
  bool reached_a = false, reached_s = false;
  for (int i = 0; i < 2; ++i) {
    const double a = cast.record("a").twist.linear.x = verif::any<double>("a");
    const double b = cast.record("b").twist.linear.x = verif::any<double>("b");
    const double c = cast.record("c").twist.linear.x = verif::any<double>("c");
    reached_a = reached_a or near(a, target);
    reached_s = reached_s or (near(b, target) and near(c, target));
    const bool done = action.accomplished();
    verif::check(done == (reached_a and reached_s), "ends when all actors have reached the speed");
    if (done)
      verif::cover("done");
    else
      verif::cover("running");
  }
  action.start();
  cast.record("a").twist.linear.x = std::numeric_limits<double>::quiet_NaN();
  verif::check(not action.accomplished(), "a new start forgets what was reached");
}

VERIF_HARNESS(relative_speed_reached, "")
{
  Cast cast;
  cast.act("s");
  const auto shape = verif::any_in("shape", 0, 1);
  const auto kind = verif::any_in("kind", 0, 1);
  const auto continuous = verif::any_in("continuous", 0, 1);
  auto node = speed_action(cast, shape);
  const char * const kinds[] = {"delta", "factor"};
  const char * const boolean[] = {"false", "true"};
  element(element(node, "SpeedActionTarget"), "RelativeTargetSpeed", {{"entityRef", "a"}, {"value", "3"}, {"speedTargetValueType", kinds[kind]}, {"continuous", boolean[continuous]}});
  SpeedAction action(node, cast.scope);
  const auto value = const_cast<Double &>(action.speed_action_target.as<RelativeTargetSpeed>().value).data = verif::any<double>("target");
  action.start();
  const double a = cast.record("a").twist.linear.x = verif::any<double>("a");
  const double b = cast.record("b").twist.linear.x = verif::any<double>("b");
  const double c = cast.record("c").twist.linear.x = verif::any<double>("c");
  const auto target = kind == 0 ? a + value : a * value;
  verif::check(action.accomplished() == (shape == 1 or (continuous == 0 and near(b, target) and near(c, target))), "ends at once for a step, never when it is kept, and otherwise when the speed is reached");
}

// an action of a selection of nothing has nothing to wait for
VERIF_HARNESS(nobody, "")
{
  Cast cast;
  cast.act("none");
  auto speed = speed_action(cast, 0);
  element(element(speed, "SpeedActionTarget"), "AbsoluteTargetSpeed", {{"value", "3"}});
  SpeedAction speed_action(speed, cast.scope);
  speed_action.start();
  verif::check(requested().empty() and speed_action.accomplished(), "speed");
  auto lane = element(cast.document, "LaneChangeAction");
  dynamics(lane, "LaneChangeActionDynamics", "linear", "rate");
  element(element(lane, "LaneChangeTarget"), "AbsoluteTargetLane", {{"value", "34"}});
  LaneChangeAction lane_action(lane, cast.scope);
  lane_action.start();
  verif::check(requested().empty() and lane_action.accomplished(), "lane change");
}

VERIF_HARNESS(actors_move, "")
{
  Cast cast;
  cast.act("a"), cast.act("m");
  auto speed = speed_action(cast, 0);
  element(element(speed, "SpeedActionTarget"), "AbsoluteTargetSpeed", {{"value", "3"}});
  verif::check(throws([&]() { SpeedAction(speed, cast.scope); }), "obstacles do not change their speed");
  auto lane = element(cast.document, "LaneChangeAction");
  dynamics(lane, "LaneChangeActionDynamics", "linear", "rate");
  element(element(lane, "LaneChangeTarget"), "AbsoluteTargetLane", {{"value", "34"}});
  verif::check(throws([&]() { LaneChangeAction(lane, cast.scope); }), "nor their lane");
}

namespace
{
using LaneConstraint = traffic_simulator::lane_change::Constraint;
using LaneShape = traffic_simulator::lane_change::TrajectoryShape;
const char * const lane_shapes[] = {"linear", "cubic"};
const char * const dimensions[] = {"rate", "time", "distance"};
auto shape_of(int shape) -> double { return static_cast<double>(shape == 0 ? LaneShape::LINEAR : LaneShape::CUBIC); }
auto constraint_of(int dimension) -> double
{
  return static_cast<double>(dimension == 0 ? LaneConstraint::Type::LATERAL_VELOCITY : dimension == 1 ? LaneConstraint::Type::TIME : LaneConstraint::Type::LONGITUDINAL_DISTANCE);
}
}  // namespace

VERIF_HARNESS(absolute_lane, "")
{
  Cast cast;
  cast.act("a"), cast.act("s");
  const auto shape = verif::any_in("shape", 0, 1);
  const auto dimension = verif::any_in("dimension", 0, 2);
  auto node = element(cast.document, "LaneChangeAction", {{"targetLaneOffset", "0.5"}});
  dynamics(node, "LaneChangeActionDynamics", lane_shapes[shape], dimensions[dimension]);
  element(element(node, "LaneChangeTarget"), "AbsoluteTargetLane", {{"value", "34513"}});
  LaneChangeAction action(node, cast.scope);
  auto & offset = const_cast<Double &>(action.target_lane_offset);
  auto & value = const_cast<Double &>(action.lane_change_action_dynamics.value);
  verif::check(offset == 0.5 and value == 4, "reads its offset and dynamics");
  offset.data = verif::any<double>("offset");
  value.data = verif::any<double>("value");
  action.start();
  const auto requests = requested();
  verif::check(requests.size() == 3, "requests of every object");
  for (const auto & [name, request] : requests)
    verif::check(made_of(request, "requestLaneChange", {34513, offset.data, shape_of(shape), constraint_of(dimension), value.data, static_cast<double>(LaneConstraint::Policy::FORCE)}), "the lane, offset, shape and constraint given");
}

VERIF_HARNESS(relative_lane, "")
{
  Cast cast;
  cast.act("s");
  const auto shape = verif::any_in("shape", 0, 1);
  const auto dimension = verif::any_in("dimension", 0, 2);
  auto node = element(cast.document, "LaneChangeAction");
  dynamics(node, "LaneChangeActionDynamics", lane_shapes[shape], dimensions[dimension]);
  element(element(node, "LaneChangeTarget"), "RelativeTargetLane", {{"entityRef", "a"}, {"value", "-2"}});
  LaneChangeAction action(node, cast.scope);
  auto & lanes = const_cast<Integer &>(action.lane_change_target.as<RelativeTargetLane>().value);
  verif::check(lanes == -2 and action.target_lane_offset == 0, "reads its lanes, the offset is optional");
  const auto n = lanes.data = verif::any_in("lanes", -255, 255);
  action.start();
  const auto requests = requested();
  verif::check(requests.size() == 2, "requests of every object");
  using Direction = traffic_simulator::lane_change::Direction;
  const auto direction = n < 0 ? Direction::RIGHT : n == 0 ? Direction::STRAIGHT : Direction::LEFT;
  for (const auto & [name, request] : requests) {
    verif::check(made_of(request, "requestLaneChange", {static_cast<double>(direction), static_cast<double>(n < 0 ? -n : n), 0, shape_of(shape), constraint_of(dimension), 4, static_cast<double>(LaneConstraint::Policy::FORCE)}), "as many lanes to the side given");
    verif::check(request.texts.size() == 2 and request.texts[1] == "a", "relative to the entity given");
  }
}

namespace
{
auto behaves(const char * what) -> std::string { return verif::any<bool>("active") ? what : "follow_lane"; }
}  // namespace

VERIF_HARNESS(lane_reached, "cover=done,cover=running")
{
  Cast cast;
  cast.act("a"), cast.act("s");
  auto node = element(cast.document, "LaneChangeAction");
  dynamics(node, "LaneChangeActionDynamics", "linear", "rate");
  element(element(node, "LaneChangeTarget"), "AbsoluteTargetLane", {{"value", "34"}});
  LaneChangeAction action(node, cast.scope);
  action.start();
  bool a = false, s = false;
  for (int i = 0; i < 2; ++i) {
    for (const auto & name : {"a", "b", "c"}) cast.record(name).action = behaves("lane_change");
    a = a or cast.record("a").action != "lane_change";
    s = s or (cast.record("b").action != "lane_change" and cast.record("c").action != "lane_change");
    const bool done = action.accomplished();
    verif::check(done == (a and s), "ends when all actors have changed the lane");
    if (done)
      verif::cover("done");
    else
      verif::cover("running");
  }
}

namespace
{
struct Profile : public Cast
{
  pugi::xml_node node;
  std::unique_ptr<SpeedProfileAction> action;
  std::vector<double> speeds, times;
  int mode;
  bool relative;
  // a profile of two entries: a time is given for the first, and not for the second
  Profile(int mode, bool relative) : mode(mode), relative(relative)
  {
    act("a"), act("s");
    const char * const modes[] = {"follow", "position"};
    node = element(document, "SpeedProfileAction", {{"followingMode", modes[mode]}});
    if (relative) node.append_attribute("entityRef") = "c";
    element(node, "SpeedProfileEntry", {{"speed", "1"}, {"time", "2"}});
    element(node, "SpeedProfileEntry", {{"speed", "3"}});
  }
  auto read() -> SpeedProfileAction &
  {
    action = std::make_unique<SpeedProfileAction>(node, scope);
    for (auto & entry : action->speed_profile_entry) {
      speeds.push_back(const_cast<Double &>(entry.speed).data = verif::any_real("speed"));
      if (not std::isnan(entry.time.data)) const_cast<Double &>(entry.time).data = verif::any_real("time");
      times.push_back(entry.time.data);
    }
    return *action;
  }
  auto asked(const traffic_simulator::Request & request, int entry) const -> bool
  {
    using Type = traffic_simulator::speed_change::Constraint::Type;
    std::vector<double> numbers;
    if (relative) numbers.push_back(static_cast<double>(traffic_simulator::speed_change::RelativeTargetSpeed::Type::DELTA));
    numbers.push_back(speeds[entry]);
    numbers.push_back(static_cast<double>(mode == 0 ? Transition::AUTO : Transition::LINEAR));
    const bool timed = entry == 0;
    numbers.push_back(static_cast<double>(timed ? Type::TIME : mode == 0 ? Type::NONE : Type::LONGITUDINAL_ACCELERATION));
    numbers.push_back(timed ? times[0] : mode == 0 ? 0 : traffic_simulator_msgs::msg::BehaviorParameter().dynamic_constraints.max_acceleration);
    numbers.push_back(timed ? 0 : 1);
    return made_of(request, "requestSpeedChange", numbers) and request.texts.size() == (relative ? 2 : 1) and (not relative or request.texts[1] == "c");
  }
};
}  // namespace

// the entries of a speed profile are requested one after the other, of each actor when it has reached the one before
VERIF_HARNESS(profile_starts, "")
{
  Profile cast(verif::any_in("mode", 0, 1), false);
  auto & action = cast.read();
  verif::check(action.speed_profile_entry.size() == 2 and cast.speeds.size() == 2, "reads all entries");
  action.start();
  const auto requests = requested();
  verif::check(requests.size() == 3, "the first is requested of all");
  for (const auto & [name, request] : requests) verif::check(cast.asked(request, 0), "the first entry");
  verif::check(not action.accomplished() and not action.endsImmediately(), "and takes time");
}

// from any state of the actors in the profile; one of them moves
VERIF_HARNESS(profile_goes_on, "cover=done,cover=running")
{
  const int mode = verif::any_in("mode", 0, 1);
  Profile cast(mode, false);
  const bool alone = mode == 1;
  auto & action = cast.read();
  action.start();
  requested();
  int at = verif::any_in("at", 0, 2), other = 2 * verif::any_in("other", 0, 1);
  int at_a = alone ? at : other, at_s = alone ? other : at;
  for (auto & [actor, entry] : action.accomplishments) entry = std::next(action.speed_profile_entry.begin(), actor.name() == "a" ? at_a : at_s);
  const auto speed = [&](const char * name, bool moves) { return cast.record(name).twist.linear.x = moves ? verif::any_real(name) : std::numeric_limits<double>::quiet_NaN(); };
  const double a = speed("a", alone), b = speed("b", not alone), c = speed("c", not alone);
  const bool next_a = at_a < 2 and near(a, cast.speeds[at_a]);
  const bool next_s = at_s < 2 and near(b, cast.speeds[at_s]) and near(c, cast.speeds[at_s]);
  action.run();
  at_a += next_a, at_s += next_s;
  const auto requests = requested();
  verif::check(requests.count("a") == (next_a and at_a == 1 ? 1 : 0), "the actor that has reached an entry is asked for the next");
  verif::check(requests.count("b") == (next_s and at_s == 1 ? 1 : 0), "a selection goes on together");
  verif::check(requests.count("c") == requests.count("b"), "all of it");
  for (const auto & [name, request] : requests) verif::check(cast.asked(request, 1), "the next entry");
  for (auto & [actor, entry] : action.accomplishments) verif::check(entry == std::next(action.speed_profile_entry.begin(), actor.name() == "a" ? at_a : at_s), "and goes on from there");
  const bool done = action.accomplished();
  verif::check(done == (at_a == 2 and at_s == 2), "ends when all have reached the last entry");
  if (done)
    verif::cover("done");
  else
    verif::cover("running");
}

VERIF_HARNESS(relative_profile, "")
{
  const auto mode = verif::any_in("mode", 0, 1);
  Profile cast(mode, true);
  cast.scope.actors.pop_back();
  auto & action = cast.read();
  action.start();
  auto requests = requested();
  verif::check(requests.size() == 1 and cast.asked(requests["a"], 0), "relative to the entity given");
  const double a = cast.record("a").twist.linear.x = verif::any<double>("a");
  const double c = cast.record("c").twist.linear.x = verif::any<double>("c");
  action.run();
  const bool reached = near(a, cast.speeds[0] + c);
  requests = requested();
  verif::check(requests.size() == (reached ? 1 : 0) and (not reached or cast.asked(requests["a"], 1)), "the next entry when the first is reached");
}

// constraints that are given bound the actor, those that are not leave it as it is
VERIF_HARNESS(profile_constraints, "")
{
  Profile cast(0, false);
  cast.scope.actors.pop_back();
  element(cast.node, "DynamicConstraints", {{"maxAcceleration", "1"}, {"maxSpeed", "2"}, {"maxDecelerationRate", "3"}});
  auto & action = cast.read();
  const auto & given = action.dynamic_constraints;
  const auto set = [](const Double & x, const char * name) { return const_cast<Double &>(x).data = verif::any_real(name); };
  verif::check(given.max_acceleration == 1 and given.max_speed == 2 and given.max_deceleration_rate == 3, "reads them");
  const double acceleration = set(given.max_acceleration, "acceleration");
  const double speed = set(given.max_speed, "speed");
  const double rate = set(given.max_deceleration_rate, "rate");
  const auto & actual = cast.record("a").behavior_parameter.dynamic_constraints;
  const auto before = actual;
  action.start();
  verif::check(actual.max_acceleration == acceleration and actual.max_speed == speed and actual.max_deceleration_rate == rate, "those given");
  verif::check(actual.max_acceleration_rate == before.max_acceleration_rate and actual.max_deceleration == before.max_deceleration, "and no others");
}

VERIF_HARNESS(profiled_actors, "")
{
  Profile cast(0, false);
  cast.act("m");
  verif::check(throws([&]() { SpeedProfileAction(cast.node, cast.scope); }), "obstacles have no speed profile");
  cast.scope.actors.clear();
  cast.act("none");
  auto & action = cast.read();
  action.start();
  action.run();
  action.run();
  verif::check(requested().empty() and action.accomplished(), "nobody has nothing to do");
}
