// Contracts of the conditions on values: simulation_time_condition.cpp, parameter_condition.cpp,
// storyboard_element_state_condition.cpp, traffic_signal_condition.cpp, by_value_condition.cpp is a choice of them.
#include "interpreter.hpp"

#include <openscenario_interpreter/syntax/parameter_condition.hpp>
#include <openscenario_interpreter/syntax/rule.hpp>
#include <openscenario_interpreter/syntax/simulation_time_condition.hpp>
#include <openscenario_interpreter/syntax/storyboard.hpp>
#include <openscenario_interpreter/syntax/storyboard_element.hpp>
#include <openscenario_interpreter/syntax/storyboard_element_state_condition.hpp>
#include <openscenario_interpreter/syntax/traffic_signal_condition.hpp>
#undef private
#undef protected

#include <common/scenario_simulator_exception/src/scenario_simulator_exception.cpp>
#include <openscenario/openscenario_interpreter/src/object.cpp>
#include <openscenario/openscenario_interpreter/src/scope.cpp>
#include <openscenario/openscenario_interpreter/src/reader/attribute.cpp>
#include <openscenario/openscenario_interpreter/src/utility/demangle.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/boolean.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/double.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/integer.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/rule.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/trigger.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/condition_group.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/condition.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/condition_edge.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/storyboard_element_state.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/storyboard_element_type.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/simulation_time_condition.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/parameter_condition.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/storyboard_element_state_condition.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/traffic_signal_condition.cpp>

using namespace openscenario_interpreter;

namespace
{
using Attributes = std::vector<std::pair<const char *, const char *>>;
auto element(pugi::xml_node parent, const char * kind, const Attributes & attributes = {}) -> pugi::xml_node
{
  auto node = parent.append_child(kind);
  for (const auto & [name, value] : attributes) node.append_attribute(name) = value;
  return node;
}

struct World
{
  Scope scope{nullptr};
  pugi::xml_document document;
  World() { SimulatorCore::activate(0, traffic_simulator::Configuration()); }
  ~World()
  {
    SimulatorCore::deactivate();
    traffic_simulator::world = traffic_simulator::World();
  }
};

const char * const rules[] = {"equalTo", "greaterThan", "lessThan", "greaterOrEqual", "lessOrEqual", "notEqualTo"};

template <typename T>
auto holds(int rule, const T & x, const T & y) -> bool
{
  switch (rule) {
    case 0:
      return x == y;
    case 1:
      return x > y;
    case 2:
      return x < y;
    case 3:
      return x >= y;
    case 4:
      return x <= y;
    default:
      return x != y;
  }
}
}  // namespace

VERIF_HARNESS(simulation_time, "")
{
  World world;
  const auto rule = verif::any_in("rule", 0, 5);
  SimulationTimeCondition condition(element(world.document, "SimulationTimeCondition", {{"value", "3"}, {"rule", rules[rule]}}), world.scope);
  verif::check(condition.value == 3, "reads its value");
  const auto value = verif::any<double>("value"), time = verif::any<double>("time");
  const_cast<Double &>(condition.value).data = value;
  traffic_simulator::world.time = time;
  verif::assume(rule != 0 or not(std::abs(time - value) <= 1e-12) or time == value);
  const auto result = condition.evaluate().as<Boolean>();
  verif::check(result == holds(rule, time, value), "compares the simulation time");
}

namespace
{
template <typename T>
auto parameter(const char * text, const T & value, const T & expected) -> void
{
  World world;
  const auto rule = verif::any_in("rule", 0, 5);
  world.scope.insert("x", make<T>(value));
  const ParameterCondition condition(element(world.document, "ParameterCondition", {{"parameterRef", "x"}, {"value", text}, {"rule", rules[rule]}}), world.scope);
  const auto result = condition.evaluate().template as<Boolean>();
  verif::check(result == holds(rule, value, expected), "compares the parameter with the value, as its type");
}
}  // namespace

VERIF_HARNESS(parameter_boolean, "") { parameter<Boolean>("true", verif::any<bool>("x"), true); }
VERIF_HARNESS(parameter_double, "")
{
  Double x;
  x.data = verif::any<double>("x");
  verif::assume(x.data == 2.5 or std::abs(x.data - 2.5) > 0.0000001);
  parameter<Double>("2.5", x, 2.5);
}
VERIF_HARNESS(parameter_integer, "") { parameter<Integer>("-3", verif::any<int>("x"), -3); }
VERIF_HARNESS(parameter_unsigned_integer, "")
{
  UnsignedInteger x;
  x.data = verif::any<unsigned>("x");
  parameter<UnsignedInteger>("3", x, UnsignedInteger("3"));
}
VERIF_HARNESS(parameter_unsigned_short, "")
{
  UnsignedShort x;
  x.data = verif::any<unsigned short>("x");
  parameter<UnsignedShort>("3", x, UnsignedShort("3"));
}
VERIF_HARNESS(parameter_string, "")
{
  const auto x = verif::any<std::string>("x");
  verif::assume(x.size() <= 3);
  parameter<String>("b", x, "b");
}

VERIF_HARNESS(parameter_errors, "")
{
  World world;
  world.scope.insert("x", make<Integer>(1));
  world.scope.insert("c", make<Rule>(Rule::lessThan));
  const Attributes wrong[] = {
    {{"parameterRef", "y"}, {"value", "1"}, {"rule", "equalTo"}},    // not declared
    {{"parameterRef", "x"}, {"value", "one"}, {"rule", "equalTo"}},  // no value of its type
    {{"parameterRef", "c"}, {"value", "1"}, {"rule", "equalTo"}},    // no parameter
  };
  for (const auto & attributes : wrong) {
    const ParameterCondition condition(element(world.document, "ParameterCondition", attributes), world.scope);
    bool rejected = false;
    try {
      condition.evaluate();
    } catch (const common::Error &) {
      rejected = true;
    }
    verif::check(rejected, "rejects what cannot be compared");
  }
}

namespace
{
using State = StoryboardElementState::value_type;
struct Probe : public StoryboardElement
{
  Probe() : StoryboardElement(1, Trigger()) {}
  auto enter(State state) -> void
  {
    transitionTo(state == State::standbyState ? standby_state : state == State::startTransition ? start_transition : state == State::runningState ? running_state : state == State::endTransition ? end_transition : state == State::completeState ? complete_state : state == State::stopTransition ? stop_transition : skip_transition);
  }
};
const State states[] = {State::standbyState, State::startTransition, State::runningState, State::endTransition, State::completeState, State::stopTransition, State::skipTransition};
const char * const state_names[] = {"standbyState", "startTransition", "runningState", "endTransition", "completeState", "stopTransition", "skipTransition"};
}  // namespace

VERIF_HARNESS(element_state, "bounded=three evaluations; up to two transitions between two states before them")
{
  World world;
  const auto monitored = verif::any_in("monitored", 0, 6), other = (monitored + verif::any_in("other", 1, 2)) % 7;
  StoryboardElementStateCondition condition(
    element(world.document, "StoryboardElementStateCondition", {{"storyboardElementRef", "e"}, {"storyboardElementType", "event"}, {"state", state_names[monitored]}}), world.scope);
  auto object = make<Probe>();
  auto & probe = object.as<Probe>();
  world.scope.insert("e", object);
  verif::check(Storyboard::thunks.size() == 1, "observes the element once the storyboard is read");
  Storyboard::thunks.front()();
  Storyboard::thunks.pop();
  int current = 0;
  for (int i = 0; i < 3; ++i) {
    bool entered = false;
    const auto transitions = verif::any_in("transitions", 0, 2 - i);
    for (int k = 0; k < transitions; ++k) {
      current = verif::any<bool>("enter") ? monitored : other;
      probe.enter(states[current]);
      entered = entered or current == monitored;
    }
    const bool result = condition.evaluate().as<Boolean>();
    verif::check(result == (entered or current == monitored), "holds when the element is in the state or has been since the last evaluation");
  }
}

VERIF_HARNESS(traffic_signal, "")
{
  World world;
  TrafficSignalCondition condition(element(world.document, "TrafficSignalCondition", {{"name", "34802"}, {"state", "red solidOn circle"}}), world.scope);
  const bool same = verif::any<bool>("same");
  traffic_simulator::world.conventional->composed_state[34802] = "amber";
  traffic_simulator::world.conventional->states[34802].insert("green solidOn circle");
  traffic_simulator::world.conventional->states[34806].insert("red solidOn circle");
  traffic_simulator::world.v2i_lights->states[34802].insert("red solidOn circle");
  if (same) traffic_simulator::world.conventional->states[34802].insert("red solidOn circle");
  verif::check(condition.evaluate().as<Boolean>() == same, "holds when the traffic light named shows the state");
  verif::check(condition.current_state == "amber", "reports the present state");
}
