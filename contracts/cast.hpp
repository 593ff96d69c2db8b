// Scenarios for the contracts of actions: a document to build, a simulator and the entities in it.
#ifndef VERIF_CONTRACTS_CAST_HPP
#define VERIF_CONTRACTS_CAST_HPP

namespace
{
using namespace openscenario_interpreter;

using Attributes = std::vector<std::pair<const char *, const char *>>;
auto element(pugi::xml_node parent, const char * kind, const Attributes & attributes = {}) -> pugi::xml_node
{
  auto node = parent.append_child(kind);
  for (const auto & [name, value] : attributes) node.append_attribute(name) = value;
  return node;
}

auto bounding_box(pugi::xml_node parent) -> void
{
  auto box = element(parent, "BoundingBox");
  element(box, "Center", {{"x", "1"}, {"y", "2"}, {"z", "3"}});
  element(box, "Dimensions", {{"width", "4"}, {"length", "5"}, {"height", "6"}});
}

auto obstacle(pugi::xml_node parent, const char * name) -> pugi::xml_node
{
  auto object = element(parent, "ScenarioObject", {{"name", name}});
  auto misc = element(object, "MiscObject", {{"name", "box"}, {"mass", "1"}, {"miscObjectCategory", "obstacle"}});
  bounding_box(misc);
  element(misc, "Properties");
  return object;
}

auto pedestrian(pugi::xml_node parent, const char * name) -> pugi::xml_node
{
  auto object = element(parent, "ScenarioObject", {{"name", name}});
  auto walker = element(object, "Pedestrian", {{"name", "walker"}, {"mass", "60"}, {"model", ""}, {"pedestrianCategory", "pedestrian"}});
  bounding_box(walker);
  element(walker, "Properties");
  return object;
}

struct World
{
  Scope scope{nullptr};
  pugi::xml_document document;
  World() { SimulatorCore::activate(0, traffic_simulator::Configuration()); }
  ~World()
  {
    SimulatorCore::deactivate();
    traffic_simulator::world = traffic_simulator::World();
    traffic_simulator::requests.clear();
  }
};

// a, b, c are pedestrians, m is an obstacle, s selects b and c, none selects nothing, all exist in the simulator
struct Cast : public World
{
  std::unique_ptr<Entities> entities;
  Cast()
  {
    auto node = element(document, "Entities");
    pedestrian(node, "a");
    pedestrian(node, "b");
    pedestrian(node, "c");
    obstacle(node, "m");
    auto members = element(element(node, "EntitySelection", {{"name", "s"}}), "Members");
    element(members, "EntityRef", {{"entityRef", "b"}});
    element(members, "EntityRef", {{"entityRef", "c"}});
    auto types = element(element(node, "EntitySelection", {{"name", "none"}}), "Members");
    element(types, "ByType", {{"objectType", "vehicle"}});
    entities = std::make_unique<Entities>(node, scope);
    for (const auto & name : {"a", "b", "c", "m"}) {
      object(name).is_added = true;
      appear(name);
    }
  }
  auto appear(const std::string & name) -> void
  {
    auto record = std::make_shared<traffic_simulator::entity::EgoEntity>();
    record->name = name;
    traffic_simulator::world.entities[name] = record;
  }
  auto object(const std::string & name) -> ScenarioObject & { return Entity(name, scope).as<ScenarioObject>(); }
  auto record(const std::string & name) -> traffic_simulator::entity::EgoEntity & { return *traffic_simulator::world.entities.at(name); }
  auto act(const std::string & name) -> void { scope.actors.push_back(Entity(name, scope)); }
};

// the requests made since the last call, in order of the entity they are made of
auto requested() -> std::map<std::string, traffic_simulator::Request>
{
  std::map<std::string, traffic_simulator::Request> result;
  for (const auto & request : traffic_simulator::requests) {
    verif::check(request.texts.size() >= 1, "requests are made of entities");
    verif::check(result.emplace(request.texts.front(), request).second, "one request of each entity");
  }
  traffic_simulator::requests.clear();
  return result;
}

auto made_of(const traffic_simulator::Request & request, const char * what, const std::vector<double> & numbers) -> bool
{
  if (request.what != what or request.numbers.size() != numbers.size()) return false;
  for (std::size_t i = 0; i < numbers.size(); ++i)
    if (not verif::same(request.numbers[i], numbers[i])) return false;
  return true;
}

template <typename F>
auto throws(F && f) -> bool
{
  try {
    f();
  } catch (const std::exception &) {
    return true;
  }
  return false;
}
}  // namespace
#endif
