// Contracts of the conditions on entities: speed_condition.cpp, acceleration_condition.cpp, stand_still_condition.cpp,
// time_headway_condition.cpp, relative_speed_condition.cpp, collision_condition.cpp, triggering_entities.hpp,
// entity.cpp, entities.cpp, entity_selection.cpp, by_object_type.cpp, simulator_core.hpp.
#include "interpreter.hpp"

#include <openscenario_interpreter/syntax/by_entity_condition.hpp>
#include <openscenario_interpreter/syntax/by_object_type.hpp>
#include <openscenario_interpreter/syntax/collision_condition.hpp>
#include <openscenario_interpreter/syntax/acceleration_condition.hpp>
#include <openscenario_interpreter/syntax/entities.hpp>
#include <openscenario_interpreter/syntax/entity_selection.hpp>
#include <openscenario_interpreter/syntax/relative_speed_condition.hpp>
#include <openscenario_interpreter/syntax/scenario_object.hpp>
#include <openscenario_interpreter/syntax/speed_condition.hpp>
#include <openscenario_interpreter/syntax/stand_still_condition.hpp>
#include <openscenario_interpreter/syntax/time_headway_condition.hpp>
#include <openscenario_interpreter/syntax/triggering_entities.hpp>
#undef private
#undef protected

#include <common/scenario_simulator_exception/src/scenario_simulator_exception.cpp>
#include <openscenario/openscenario_interpreter/src/object.cpp>
#include <openscenario/openscenario_interpreter/src/scope.cpp>
#include <openscenario/openscenario_interpreter/src/reader/attribute.cpp>
#include <openscenario/openscenario_interpreter/src/reader/element.cpp>
#include <openscenario/openscenario_interpreter/src/utility/demangle.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/boolean.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/double.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/rule.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/triggering_entities.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/triggering_entities_rule.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/entity.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/entities.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/entity_selection.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/selected_entities.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/by_object_type.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/object_type.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/entity_object.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/object_controller.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/scenario_object.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/misc_object.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/misc_object_category.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/pedestrian.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/pedestrian_category.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/parameter_declarations.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/bounding_box.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/center.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/dimensions.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/properties.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/controller.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/speed_condition.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/acceleration_condition.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/stand_still_condition.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/time_headway_condition.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/relative_speed_condition.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/collision_condition.cpp>

using namespace openscenario_interpreter;

// assumed: the pose of one unturned pose in another is their difference
namespace traffic_simulator
{
inline namespace pose
{
auto relativePose(const geometry_msgs::msg::Pose & from, const geometry_msgs::msg::Pose & to) -> std::optional<geometry_msgs::msg::Pose>
{
  geometry_msgs::msg::Pose result;
  result.position.x = to.position.x - from.position.x;
  result.position.y = to.position.y - from.position.y;
  result.position.z = to.position.z - from.position.z;
  return result;
}
}  // namespace pose
}  // namespace traffic_simulator

namespace
{
using Attributes = std::vector<std::pair<const char *, const char *>>;
auto element(pugi::xml_node parent, const char * kind, const Attributes & attributes = {}) -> pugi::xml_node
{
  auto node = parent.append_child(kind);
  for (const auto & [name, value] : attributes) node.append_attribute(name) = value;
  return node;
}

auto bounding_box(pugi::xml_node parent) -> void
{
  auto box = element(parent, "BoundingBox");
  element(box, "Center", {{"x", "1"}, {"y", "2"}, {"z", "3"}});
  element(box, "Dimensions", {{"width", "4"}, {"length", "5"}, {"height", "6"}});
}

auto obstacle(pugi::xml_node parent, const char * name) -> pugi::xml_node
{
  auto object = element(parent, "ScenarioObject", {{"name", name}});
  auto misc = element(object, "MiscObject", {{"name", "box"}, {"mass", "1"}, {"miscObjectCategory", "obstacle"}});
  bounding_box(misc);
  element(misc, "Properties");
  return object;
}

auto pedestrian(pugi::xml_node parent, const char * name) -> pugi::xml_node
{
  auto object = element(parent, "ScenarioObject", {{"name", name}});
  auto walker = element(object, "Pedestrian", {{"name", "walker"}, {"mass", "60"}, {"model", ""}, {"pedestrianCategory", "pedestrian"}});
  bounding_box(walker);
  element(walker, "Properties");
  return object;
}

struct World
{
  Scope scope{nullptr};
  pugi::xml_document document;
  World() { SimulatorCore::activate(0, traffic_simulator::Configuration()); }
  ~World()
  {
    SimulatorCore::deactivate();
    traffic_simulator::world = traffic_simulator::World();
  }
};
}  // namespace

VERIF_HARNESS(entities, "")
{
  World world;
  auto node = element(world.document, "Entities");
  obstacle(node, "a");
  pedestrian(node, "b");
  auto selection = element(node, "EntitySelection", {{"name", "both"}});
  auto members = element(selection, "Members");
  element(members, "EntityRef", {{"entityRef", "a"}});
  element(members, "EntityRef", {{"entityRef", "b"}});
  Entities entities(node, world.scope);
  const Entity a("a", world.scope), b("b", world.scope), both("both", world.scope);
  verif::check(a.is<ScenarioObject>() and b.is<ScenarioObject>() and both.is<EntitySelection>(), "finds the entity of a name");
  verif::check(a.objects().size() == 1 and both.objects().size() == 2, "an object is itself, a selection its members");
  verif::check(a.as<ScenarioObject>().objectType() == ObjectType::miscellaneous, "type");
  bool found = true;
  try {
    Entity("c", world.scope);
  } catch (const common::Error &) {
    found = false;
  }
  verif::check(not found, "rejects an undeclared entity");
}

namespace
{
// a and b are objects, s selects b and c; what the simulator knows about each is set by the harness
struct Cast : public World
{
  std::unique_ptr<Entities> entities;
  pugi::xml_node by_entity;
  Cast()
  {
    auto node = element(document, "Entities");
    obstacle(node, "a");
    pedestrian(node, "b");
    pedestrian(node, "c");
    auto members = element(element(node, "EntitySelection", {{"name", "s"}}), "Members");
    element(members, "EntityRef", {{"entityRef", "b"}});
    element(members, "EntityRef", {{"entityRef", "c"}});
    entities = std::make_unique<Entities>(node, scope);
    for (const auto & name : {"a", "b", "c"}) {
      object(name).is_added = true;
      auto record = std::make_shared<traffic_simulator::entity::EgoEntity>();
      record->name = name;
      traffic_simulator::world.entities[name] = record;
    }
  }
  auto object(const std::string & name) -> ScenarioObject & { return Entity(name, scope).as<ScenarioObject>(); }
  auto record(const std::string & name) -> traffic_simulator::entity::EgoEntity & { return *traffic_simulator::world.entities.at(name); }
  // the objects the triggering entities a and s stand for
  auto triggering(const char * rule) -> pugi::xml_node
  {
    auto node = element(document, "TriggeringEntities", {{"triggeringEntitiesRule", rule}});
    element(node, "EntityRef", {{"entityRef", "a"}});
    element(node, "EntityRef", {{"entityRef", "s"}});
    return node;
  }
};

const char * const quantifiers[] = {"any", "all"};
const char * const rules[] = {"equalTo", "greaterThan", "lessThan", "greaterOrEqual", "lessOrEqual", "notEqualTo"};

auto holds(int rule, double x, double y) -> bool
{
  switch (rule) {
    case 0:
      return std::abs(x - y) < std::numeric_limits<double>::epsilon();
    case 1:
      return x > y;
    case 2:
      return x < y;
    case 3:
      return x >= y;
    case 4:
      return x <= y;
    default:
      return x != y;
  }
}

// a selection satisfies the comparison when all its members do
auto combined(int quantifier, bool a, bool b, bool c) -> bool { return quantifier == 0 ? a or (b and c) : a and (b and c); }
}  // namespace

VERIF_HARNESS(speed, "")
{
  Cast cast;
  const auto quantifier = verif::any_in("quantifier", 0, 1);
  const auto rule = verif::any_in("rule", 0, 5);
  const auto direction = verif::any_in("direction", 0, 3);
  const TriggeringEntities triggering(cast.triggering(quantifiers[quantifier]), cast.scope);
  auto node = element(cast.document, "SpeedCondition", {{"value", "3"}, {"rule", rules[rule]}});
  const char * const directions[] = {"longitudinal", "lateral", "vertical"};
  if (direction < 3) node.append_attribute("direction") = directions[direction];
  SpeedCondition condition(node, cast.scope, triggering);
  verif::check(condition.value == 3, "reads its value");
  const auto value = verif::any<double>("value");
  const_cast<Double &>(condition.value).data = value;
  double speeds[3];
  const char * const names[] = {"a", "b", "c"};
  for (int i = 0; i < 3; ++i) {
    auto & linear = cast.record(names[i]).twist.linear;
    linear.x = verif::any<double>("x");
    linear.y = verif::any<double>("y");
    linear.z = verif::any<double>("z");
    speeds[i] = direction == 1 ? linear.y : direction == 2 ? linear.z : linear.x;
  }
  const auto result = condition.evaluate().as<Boolean>();
  verif::check(result == combined(quantifier, holds(rule, speeds[0], value), holds(rule, speeds[1], value), holds(rule, speeds[2], value)), "compares the speed in the direction given");
}

VERIF_HARNESS(acceleration, "")
{
  Cast cast;
  const auto quantifier = verif::any_in("quantifier", 0, 1);
  const auto rule = verif::any_in("rule", 0, 5);
  const TriggeringEntities triggering(cast.triggering(quantifiers[quantifier]), cast.scope);
  AccelerationCondition condition(element(cast.document, "AccelerationCondition", {{"value", "3"}, {"rule", rules[rule]}}), cast.scope, triggering);
  verif::check(condition.value == 3, "reads its value");
  const auto value = verif::any<double>("value");
  const_cast<Double &>(condition.value).data = value;
  double x[3];
  const char * const names[] = {"a", "b", "c"};
  for (int i = 0; i < 3; ++i) cast.record(names[i]).accel.linear.x = x[i] = verif::any<double>("x");
  const auto result = condition.evaluate().as<Boolean>();
  verif::check(result == combined(quantifier, holds(rule, x[0], value), holds(rule, x[1], value), holds(rule, x[2], value)), "compares the longitudinal acceleration");
}

VERIF_HARNESS(stand_still, "")
{
  Cast cast;
  const auto quantifier = verif::any_in("quantifier", 0, 1);
  const TriggeringEntities triggering(cast.triggering(quantifiers[quantifier]), cast.scope);
  StandStillCondition condition(element(cast.document, "StandStillCondition", {{"duration", "3"}}), cast.scope, triggering);
  verif::check(condition.duration == 3, "reads its duration");
  const auto duration = verif::any<double>("duration");
  const_cast<Double &>(condition.duration).data = duration;
  double x[3];
  const char * const names[] = {"a", "b", "c"};
  for (int i = 0; i < 3; ++i) cast.record(names[i]).standstill = x[i] = verif::any<double>("x");
  const auto result = condition.evaluate().as<Boolean>();
  verif::check(result == combined(quantifier, x[0] > duration, x[1] > duration, x[2] > duration), "holds when the entity has stood longer than the duration");
}

VERIF_HARNESS(time_headway, "real")
{
  Cast cast;
  cast.object("c");
  const auto rule = verif::any_in("rule", 0, 5);
  auto node = element(cast.document, "TriggeringEntities", {{"triggeringEntitiesRule", "any"}});
  element(node, "EntityRef", {{"entityRef", "a"}});
  const TriggeringEntities triggering(node, cast.scope);
  TimeHeadwayCondition condition(
    element(cast.document, "TimeHeadwayCondition", {{"entityRef", "b"}, {"value", "3"}, {"freespace", "false"}, {"alongRoute", "false"}, {"rule", rules[rule]}}),
    cast.scope, triggering);
  const auto value = verif::any_real("value");
  const_cast<Double &>(condition.value).data = value;
  const auto from = verif::any_real("position of a"), to = verif::any_real("position of b"), speed = verif::any_real("speed of a");
  verif::assume(speed > 0 and from <= to);  // a follows b
  cast.record("a").map_pose.position.x = from;
  cast.record("b").map_pose.position.x = to;
  cast.record("a").twist.linear.x = speed;
  cast.record("b").twist.linear.x = verif::any_real("speed of b");
  verif::check(condition.evaluate().as<Boolean>() == holds(rule, (to - from) / speed, value), "compares the time until the follower is where the other one is");
}

VERIF_HARNESS(no_headway, "")
{
  Cast cast;
  auto node = element(cast.document, "TriggeringEntities", {{"triggeringEntitiesRule", "any"}});
  element(node, "EntityRef", {{"entityRef", "a"}});
  const TriggeringEntities triggering(node, cast.scope);
  TimeHeadwayCondition condition(
    element(cast.document, "TimeHeadwayCondition", {{"entityRef", "b"}, {"value", "3"}, {"freespace", "false"}, {"alongRoute", "false"}, {"rule", "lessThan"}}),
    cast.scope, triggering);
  if (verif::any<bool>("ahead")) {
    const auto distance = verif::any_real("distance");
    verif::assume(distance > 0);
    cast.record("a").map_pose.position.x = distance;
    cast.record("a").twist.linear.x = verif::any_real("speed");
  } else if (verif::any<bool>("halted")) {
    cast.record("b").map_pose.position.x = verif::any<bool>("behind") ? 5 : 0;
  } else {
    traffic_simulator::world.entities.erase("b");
  }
  verif::check(not condition.evaluate().as<Boolean>(), "no headway is below a limit without a moving follower behind");
}

VERIF_HARNESS(collision, "")
{
  Cast cast;
  const auto quantifier = verif::any_in("quantifier", 0, 1);
  const TriggeringEntities triggering(cast.triggering(quantifiers[quantifier]), cast.scope);
  auto node = element(cast.document, "CollisionCondition");
  element(node, "EntityRef", {{"entityRef", "a"}});
  const CollisionCondition condition(node, cast.scope, triggering);
  const bool b = verif::any<bool>("b"), c = verif::any<bool>("c"), added = verif::any<bool>("added");
  if (b) traffic_simulator::world.collisions.insert("a/b");
  if (c) traffic_simulator::world.collisions.insert("a/c");
  cast.object("a").is_added = added;
  verif::check(condition.evaluate().as<Boolean>() == (added and combined(quantifier, false, b, c)), "holds when the triggering entities touch the entity");
}

VERIF_HARNESS(collision_by_type, "")
{
  Cast cast;
  auto node = element(cast.document, "TriggeringEntities", {{"triggeringEntitiesRule", "any"}});
  element(node, "EntityRef", {{"entityRef", "b"}});
  const TriggeringEntities triggering(node, cast.scope);
  auto collision = element(cast.document, "CollisionCondition");
  const int type = verif::any_in("type", 0, 2);
  const char * const types[] = {"miscellaneous", "pedestrian", "vehicle"};
  element(collision, "ByType", {{"type", types[type]}});
  const CollisionCondition condition(collision, cast.scope, triggering);
  const bool a = verif::any<bool>("a"), c = verif::any<bool>("c");
  if (a) traffic_simulator::world.collisions.insert("a/b");
  if (c) traffic_simulator::world.collisions.insert("b/c");
  verif::check(condition.evaluate().as<Boolean>() == (type == 0 ? a : type == 1 ? c : false), "holds when the triggering entity touches any entity of the type");
}

VERIF_HARNESS(relative_speed, "real")
{
  Cast cast;
  const auto rule = verif::any_in("rule", 0, 5);
  const auto direction = verif::any_in("direction", 0, 2);
  auto node = element(cast.document, "TriggeringEntities", {{"triggeringEntitiesRule", "any"}});
  element(node, "EntityRef", {{"entityRef", "a"}});
  const TriggeringEntities triggering(node, cast.scope);
  const char * const directions[] = {"longitudinal", "lateral", "vertical"};
  RelativeSpeedCondition condition(
    element(cast.document, "RelativeSpeedCondition", {{"entityRef", "b"}, {"value", "3"}, {"rule", rules[rule]}, {"direction", directions[direction]}}),
    cast.scope, triggering);
  const auto value = verif::any_real("value");
  const_cast<Double &>(condition.value).data = value;
  const auto a = verif::any_real("speed of a"), b = verif::any_real("speed of b");
  cast.record("a").twist.linear.x = a;
  cast.record("b").twist.linear.x = b;
  // the observer b looks along x; a drives along or against x or y
  const auto heading = verif::any_in("heading", 0, 3);
  auto & q = cast.record("a").map_pose.orientation;
  const double h = std::sqrt(0.5);
  q.w = heading == 0 ? 1 : heading == 1 ? h : heading == 2 ? 0 : h;
  q.z = heading == 0 ? 0 : heading == 1 ? h : heading == 2 ? 1 : -h;
  q.x = q.y = 0;
  const double x = heading == 0 ? a : heading == 2 ? -a : 0, y = heading == 1 ? a : heading == 3 ? -a : 0;
  const double expected = direction == 0 ? x - b : direction == 1 ? y : 0;
  verif::assume(std::abs(expected - value) > 0.000001 or (direction == 0 and heading == 0));
  const auto result = condition.evaluate().as<Boolean>();
  verif::check(result == holds(rule, expected, value), "compares the speed of the triggering entity as seen by the other");
}
