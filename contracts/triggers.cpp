// Contracts of triggers: trigger.cpp, condition_group.cpp, condition.cpp.
#include "interpreter.hpp"

#include <openscenario_interpreter/syntax/trigger.hpp>
#undef private
#undef protected

#include <common/scenario_simulator_exception/src/scenario_simulator_exception.cpp>
#include <openscenario/openscenario_interpreter/src/object.cpp>
#include <openscenario/openscenario_interpreter/src/scope.cpp>
#include <openscenario/openscenario_interpreter/src/reader/attribute.cpp>
#include <openscenario/openscenario_interpreter/src/reader/element.cpp>
#include <openscenario/openscenario_interpreter/src/utility/demangle.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/boolean.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/double.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/rule.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/trigger.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/condition_group.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/condition.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/condition_edge.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/by_value_condition.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/simulation_time_condition.cpp>

using namespace openscenario_interpreter;

namespace
{
// what a condition is about, with a given outcome
struct Outcome
{
  bool value = false;
  int evaluations = 0;
  auto evaluate() -> Object
  {
    ++evaluations;
    return asBoolean(value);
  }
  auto description() const -> std::string { return value ? "yes" : "no"; }
};

struct World
{
  Scope scope{nullptr};
  pugi::xml_document document;
  World() { SimulatorCore::activate(0, traffic_simulator::Configuration()); }
  ~World() { SimulatorCore::deactivate(); }
  auto condition(const char * edge, const char * name = "condition") -> pugi::xml_node
  {
    auto node = document.append_child("Condition");
    node.append_attribute("name") = name;
    node.append_attribute("delay") = "0";
    node.append_attribute("conditionEdge") = edge;
    auto child = node.append_child("ByValueCondition").append_child("SimulationTimeCondition");
    child.append_attribute("value") = "3";
    child.append_attribute("rule") = "greaterThan";
    return node;
  }
};

auto substitute_outcome(Condition & condition) -> Outcome &
{
  static_cast<Object &>(condition) = make<Outcome>();
  return condition.as<Outcome>();
}
}  // namespace

VERIF_HARNESS(read, "")
{
  World world;
  Condition condition(world.condition("rising", "late"), world.scope);
  verif::check(condition.name == "late" and condition.delay == 0 and condition.condition_edge == ConditionEdge::rising, "reads its attributes");
  verif::check(condition.is<ByValueCondition>(), "reads the kind of condition");
}

namespace
{
// The value of a condition by its definition: at every evaluation what the condition is about is recorded with the
// simulation time; with a delay, the value is that of the last record which is at least that old, and a change is one
// from the record before it.
struct History
{
  std::vector<double> times;
  std::vector<bool> values;
  auto record(double time, bool value) -> void
  {
    times.push_back(time);
    values.push_back(value);
  }
  auto old_enough(double delay) const -> int
  {
    int n = 0;
    for (std::size_t i = 0; i < times.size(); ++i)
      if (times[i] <= times.back() - delay) n = static_cast<int>(i) + 1;
    return n;
  }
};

template <typename F>
auto conditions(const char * edge, int steps, double delay, F expected) -> void
{
  World world;
  Condition condition(world.condition(edge), world.scope);
  const_cast<Double &>(condition.delay).data = delay;
  auto & outcome = substitute_outcome(condition);
  History history;
  bool value = false;
  for (int i = 0; i < steps; ++i) {
    const auto elapsed = verif::any_real("elapsed");
    verif::assume(elapsed > 0 and elapsed <= 1000);
    const auto time = i == 0 ? elapsed - 0.5 : history.times.back() + elapsed;
    traffic_simulator::world.time = time;
    outcome.value = verif::any<bool>("outcome");
    history.record(time, outcome.value);
    const auto result = condition.evaluate().as<Boolean>();
    value = expected(history, history.old_enough(delay), value);
    verif::check(result == value and condition.current_value == value, "has the value its edge and delay define");
    verif::check(outcome.evaluations == i + 1, "evaluates what it is about once per evaluation");
  }
}
auto any_delay() -> double
{
  const auto delay = verif::any_real("delay");
  verif::assume(delay >= 0 and delay <= 1000);
  return delay;
}
}  // namespace

VERIF_HARNESS(condition_none, "real,bounded=three evaluations")
{
  conditions("none", 3, any_delay(), [](const History & h, int n, bool) { return n > 0 and h.values[n - 1]; });
}

VERIF_HARNESS(condition_sticky, "real,bounded=three evaluations")
{
  conditions("sticky", 3, any_delay(), [](const History & h, int n, bool before) { return n > 0 and (before or h.values[n - 1]); });
}

VERIF_HARNESS(condition_rising, "real,bounded=three evaluations")
{
  conditions("rising", 3, any_delay(), [](const History & h, int n, bool) { return n > 1 and h.values[n - 1] and not h.values[n - 2]; });
}

VERIF_HARNESS(condition_falling, "real,bounded=three evaluations")
{
  conditions("falling", 3, any_delay(), [](const History & h, int n, bool) { return n > 1 and not h.values[n - 1] and h.values[n - 2]; });
}

VERIF_HARNESS(condition_rising_or_falling, "real,bounded=three evaluations")
{
  conditions("risingOrFalling", 3, any_delay(), [](const History & h, int n, bool) { return n > 1 and h.values[n - 1] != h.values[n - 2]; });
}

#ifndef VERIF_PUBLIC_ONLY
// Without delay a condition remembers at most the last two records, whatever happened before: one more evaluation from
// every such state decides every number of evaluations.
VERIF_HARNESS(condition_undelayed, "real")
{
  const auto edge = verif::any<int>("edge");
  verif::assume(0 <= edge and edge < 5);
  const char * const edges[] = {"none", "sticky", "rising", "falling", "risingOrFalling"};
  World world;
  Condition condition(world.condition(edges[edge]), world.scope);
  auto & outcome = substitute_outcome(condition);
  const auto earliest = verif::any_real("earliest"), step = verif::any_real("step"), next_step = verif::any_real("next_step");
  verif::assume(earliest >= 0 and earliest <= 100000 and step > 0 and step <= 1000 and next_step > 0 and next_step <= 1000);
  const auto earlier = earliest + step, time = earlier + next_step;
  const auto records = verif::any<int>("records");
  verif::assume(0 <= records and records <= 2);
  const auto before = verif::any<bool>("before");
  if (records > 1) condition.histories.push_back({earliest, verif::any<bool>("first")});
  if (records > 0) condition.histories.push_back({earlier, before});
  const auto value = verif::any<bool>("value");
  verif::assume(records > 0 or not value);
  condition.current_value = value;
  traffic_simulator::world.time = time;
  outcome.value = verif::any<bool>("outcome");
  const bool now = outcome.value;
  const auto result = condition.evaluate().as<Boolean>();
  switch (edge) {
    case 0: verif::check(result == now, "none: the present value"); break;
    case 1: verif::check(result == (now or value), "sticky: stays true once it was true"); break;
    case 2: verif::check(result == (records > 0 and now and not before), "rising: was false and is true"); break;
    case 3: verif::check(result == (records > 0 and not now and before), "falling: was true and is false"); break;
    default: verif::check(result == (records > 0 and now != before), "risingOrFalling: has changed"); break;
  }
  verif::check(condition.current_value == result, "remembers its value");
  verif::check(not condition.histories.empty() and condition.histories.size() <= 2 and condition.histories.back().result == now and condition.histories.back().time == time, "remembers the present record");
}
#endif

VERIF_HARNESS(groups, "bounded=two groups of two conditions")
{
  World world;
  auto node = world.document.append_child("StartTrigger");
  bool expected = false;
  std::vector<bool> values, group_values;
  for (int i = 0; i < 2; ++i) {
    auto group = node.append_child("ConditionGroup");
    for (int j = 0; j < 2; ++j) {
      auto condition = group.append_child("Condition");
      condition.append_attribute("name") = j ? "second" : "first";
      condition.append_attribute("delay") = "0";
      condition.append_attribute("conditionEdge") = "none";
      auto child = condition.append_child("ByValueCondition").append_child("SimulationTimeCondition");
      child.append_attribute("value") = "3";
      child.append_attribute("rule") = "greaterThan";
    }
  }
  Trigger trigger(node, world.scope);
  verif::check(trigger.size() == 2 and trigger.front().size() == 2 and trigger.back().size() == 2, "reads every group and condition");
  std::vector<Outcome *> outcomes;
  for (auto & group : trigger) {
    bool all = true;
    for (auto & condition : group) {
      auto & outcome = substitute_outcome(condition);
      outcome.value = verif::any<bool>("outcome");
      all = all and outcome.value;
      outcomes.push_back(&outcome);
    }
    group_values.push_back(all);
    expected = expected or all;
  }
  traffic_simulator::world.time = 1;
  const auto result = trigger.evaluate().as<Boolean>();
  verif::check(result == expected and trigger.current_value == expected, "holds when every condition of some group holds");
  verif::check(trigger.front().current_value == group_values[0] and trigger.back().current_value == group_values[1], "a group holds when every condition of it holds");
  for (auto outcome : outcomes) verif::check(outcome->evaluations == 1, "every condition is evaluated once");
  const auto index = trigger.activeConditionGroupIndex();
  verif::check(index == (group_values[0] ? 0 : group_values[1] ? 1 : 2), "names the first group that holds");
  if (result) {
    const auto description = trigger.activeConditionGroupDescription();
    verif::check(description.size() == 2 and description[0].first == "first" and description[1].first == "second", "describes the conditions of that group");
  }
}

VERIF_HARNESS(no_group, "")
{
  Trigger none;
  verif::check(not none.evaluate().as<Boolean>(), "a trigger without groups never holds");
  auto always = Trigger::truthy();
  verif::check(always.evaluate().as<Boolean>(), "the default trigger always holds");
  World world;
  bool rejected = false;
  try {
    ConditionGroup group(world.document.append_child("ConditionGroup"), world.scope);
  } catch (const common::SyntaxError &) {
    rejected = true;
  }
  verif::check(rejected, "a group without conditions is rejected");
}
