// Contracts of events, maneuvers and the elements above them: event.cpp, maneuver.cpp, maneuver_group.cpp, act.cpp,
// story.cpp, action.cpp.
#include "interpreter.hpp"

#include <openscenario_interpreter/syntax/action.hpp>
#include <openscenario_interpreter/syntax/event.hpp>
#include <openscenario_interpreter/syntax/maneuver.hpp>
#include <openscenario_interpreter/syntax/maneuver_group.hpp>
#include <openscenario_interpreter/syntax/act.hpp>
#include <openscenario_interpreter/syntax/story.hpp>
#include <openscenario_interpreter/syntax/custom_command_action.hpp>
#undef private
#undef protected

#include <common/scenario_simulator_exception/src/scenario_simulator_exception.cpp>
#include <openscenario/openscenario_interpreter/src/object.cpp>
#include <openscenario/openscenario_interpreter/src/scope.cpp>
#include <openscenario/openscenario_interpreter/src/reader/attribute.cpp>
#include <openscenario/openscenario_interpreter/src/reader/element.cpp>
#include <openscenario/openscenario_interpreter/src/utility/demangle.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/boolean.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/double.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/priority.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/rule.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/trigger.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/condition_group.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/condition.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/condition_edge.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/by_value_condition.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/simulation_time_condition.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/storyboard_element_state.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/parameter_declarations.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/actors.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/action.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/user_defined_action.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/custom_command_action.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/event.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/maneuver.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/maneuver_group.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/act.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/story.cpp>

using namespace openscenario_interpreter;
using State = StoryboardElementState::value_type;

namespace
{
struct World
{
  Scope scope{nullptr};
  pugi::xml_document document;
  World() { SimulatorCore::activate(0, traffic_simulator::Configuration()); }
  ~World() { SimulatorCore::deactivate(); }
};

auto append(pugi::xml_node parent, const char * kind, const char * name) -> pugi::xml_node
{
  auto node = parent.append_child(kind);
  node.append_attribute("name") = name;
  return node;
}

auto append_action(pugi::xml_node event, const char * name) -> void
{
  auto command = append(event, "Action", name).append_child("UserDefinedAction").append_child("CustomCommandAction");
  command.append_attribute("type") = ":";
}

auto append_event(pugi::xml_node maneuver, const char * name, const char * priority, const char * count) -> pugi::xml_node
{
  auto event = append(maneuver, "Event", name);
  event.append_attribute("priority") = priority;
  event.append_attribute("maximumExecutionCount") = count;
  append_action(event, "action");
  return event;
}

// what an action does, recorded
struct Command : public CustomCommand
{
  int starts = 0, runs = 0;
  bool done = false;
  auto accomplished() noexcept -> bool override { return done; }
  auto endsImmediately() const -> bool override { return false; }
  auto run() noexcept -> void override { ++runs; }
  auto start(const Scope &) -> void override { ++starts; }
};

auto event_of(Maneuver & maneuver, int index) -> Event &
{
  auto it = maneuver.elements.begin();
  for (int i = 0; i < index; ++i) ++it;
  return it->as<Event>();
}

auto action_of(Event & event, int index) -> Action &
{
  auto it = event.elements.begin();
  for (int i = 0; i < index; ++i) ++it;
  return it->as<Action>();
}

// replaces the command of an action by one that records what it is told to do
auto command_of(Event & event, int index) -> Command &
{
  auto & action = static_cast<ComplexType &>(action_of(event, index)).as<UserDefinedAction>().as<CustomCommandAction>();
  auto & command = const_cast<std::shared_ptr<CustomCommand> &>(action.command);
  if (not dynamic_cast<Command *>(command.get())) command = std::make_shared<Command>();
  return dynamic_cast<Command &>(*command);
}

auto set_start_trigger(Event & event) -> bool
{
  const auto startable = verif::any<bool>("startable");
  event.start_trigger = startable ? Trigger::truthy() : Trigger();
  return startable;
}

// any state an event can be in between evaluations, with its actions in states they can then be in
auto enter(Event & event, bool stopped) -> State
{
  const auto which = verif::any<int>("state");
  verif::assume(0 <= which and which < (stopped ? 4 : 3));
  event.current_state = which == 0 ? standby_state : which == 1 ? running_state : which == 2 ? complete_state : stop_transition;
  bool any_running = false;
  for (auto & element : event.elements) {
    auto & action = element.as<Action>();
    const auto ended = verif::any<bool>("ended");
    if (which == 0)
      action.current_state = ended ? complete_state : standby_state;
    else if (which == 2)
      action.current_state = complete_state;
    else
      action.current_state = ended ? complete_state : running_state;
    action.current_execution_count = action.StoryboardElement::is<State::standbyState>() ? 0 : 1;
    any_running = any_running or action.StoryboardElement::is<State::runningState>();
  }
  verif::assume(any_running or which == 0 or which == 2);
  event.current_execution_count = which == 0 ? 0 : 1;
  return event.state().as<StoryboardElementState>();
}
}  // namespace

VERIF_HARNESS(read, "")
{
  World world;
  auto node = append(world.document, "Maneuver", "maneuver");
  append_event(node, "first", "parallel", "2");
  Maneuver maneuver(node, world.scope);
  verif::check(maneuver.elements.size() == 1 and maneuver.elements.front().is<Event>(), "reads its events");
  auto & event = maneuver.elements.front().as<Event>();
  verif::check(event.name == "first" and event.elements.size() == 1 and event.elements.front().is<Action>(), "reads the actions of an event");
}

VERIF_HARNESS(event_life, "cover=started,cover=waiting,cover=again,cover=complete,cover=lasting")
{
  World world;
  auto node = append(world.document, "Maneuver", "maneuver");
  append_action(append_event(node, "event", "parallel", "2"), "other");
  Maneuver maneuver(node, world.scope);
  auto & event = event_of(maneuver, 0);
  auto & first = command_of(event, 0), & second = command_of(event, 1);
  const auto startable = set_start_trigger(event);
  const auto before = enter(event, false);
  event.current_execution_count = before == State::standbyState ? verif::any<bool>("executed") : verif::any<bool>("twice") ? 2 : 1;
  const auto count = event.current_execution_count;
  first.done = verif::any<bool>("first done");
  second.done = verif::any<bool>("second done");
  const bool first_lasts = action_of(event, 0).StoryboardElement::is<State::runningState>(), second_lasts = action_of(event, 1).StoryboardElement::is<State::runningState>();
  maneuver.run();
  auto executed = count;
  bool running = before == State::runningState, complete = before == State::completeState;
  bool first_runs = first_lasts, second_runs = second_lasts;
  int starts = 0;
  while (not complete) {
    if (not running) {
      if (not startable) {
        verif::cover("waiting");
        break;
      }
      verif::cover("started");
      ++starts, ++executed;
      running = first_runs = second_runs = true;
    }
    if ((first_runs and not first.done) or (second_runs and not second.done)) {
      verif::cover("lasting");
      break;
    }
    running = false;
    if (executed >= 2) {
      complete = true;
      verif::cover("complete");
    } else {
      verif::cover("again");
    }
  }
  verif::check(first.starts == starts and second.starts == starts, "every action starts when its event starts");
  verif::check(event.current_execution_count == executed and executed <= 2, "an event is executed no more often than its maximum");
  verif::check(event.is<State::completeState>() == complete and event.is<State::runningState>() == running, "an event lasts until every action is complete, and waits while executions are left");
  if (before == State::runningState and starts == 0)
    verif::check(first.runs == (first_lasts ? 1 : 0) and second.runs == (second_lasts ? 1 : 0), "every lasting action is executed once");
}

// one evaluation of a maneuver with two events, each in any state it can be in
namespace
{
auto priorities(int first) -> void
{
  const char * const priorities[] = {"override", "skip", "parallel"};
  World world;
  auto node = append(world.document, "Maneuver", "maneuver");
  int priority[2];
  for (int i = 0; i < 2; ++i) {
    priority[i] = i == 0 ? first : verif::any<int>("priority");
    verif::assume(0 <= priority[i] and priority[i] < 3);
    append_event(node, i ? "second" : "first", priorities[priority[i]], "1");
  }
  Maneuver maneuver(node, world.scope);
  State before[2], expected[2];
  bool startable[2], starts[2] = {false, false}, runs[2] = {false, false};
  for (int i = 0; i < 2; ++i) {
    auto & event = event_of(maneuver, i);
    startable[i] = set_start_trigger(event);
    expected[i] = before[i] = enter(event, true);
    command_of(event, 0).done = false;
  }
  maneuver.run();
  for (int i = 0; i < 2; ++i) {
    auto & other = expected[1 - i];
    switch (expected[i]) {
      case State::standbyState:
        if (not startable[i]) break;
        if (priority[i] == 1 and other == State::runningState) {
          verif::cover("skipped");
          break;
        }
        if (priority[i] == 0 and other == State::runningState) {
          verif::cover("overridden");
          other = State::stopTransition;
        }
        if (other == State::runningState) verif::cover("parallel");
        starts[i] = runs[i] = true;
        expected[i] = State::runningState;
        break;
      case State::runningState: runs[i] = true; break;
      case State::stopTransition: expected[i] = State::completeState; break;
      default: break;
    }
  }
  for (int i = 0; i < 2; ++i) {
    auto & event = event_of(maneuver, i);
    auto & command = command_of(event, 0);
    verif::check(event.state().as<StoryboardElementState>() == expected[i], "an event starts when its trigger holds: with priority override it stops the running ones, with skip it gives way to them, with parallel it joins them");
    verif::check(command.starts == starts[i] and command.runs == runs[i], "the actions of an event are executed exactly while it runs");
    verif::check(action_of(event, 0).StoryboardElement::is<State::runningState>() == (expected[i] == State::runningState or (expected[i] == State::stopTransition)), "the actions of a stopped event stop");
  }
}
}  // namespace

VERIF_HARNESS(first_overrides, "bounded=two events,cover=overridden,cover=skipped,cover=parallel") { priorities(0); }
VERIF_HARNESS(first_skips, "bounded=two events,cover=overridden,cover=skipped,cover=parallel") { priorities(1); }
VERIF_HARNESS(first_joins, "bounded=two events,cover=overridden,cover=skipped,cover=parallel") { priorities(2); }

namespace
{
auto append_trigger(pugi::xml_node node, const char * kind, const char * value) -> void
{
  auto condition = append(node.append_child(kind).append_child("ConditionGroup"), "Condition", "condition");
  condition.append_attribute("delay") = "0";
  condition.append_attribute("conditionEdge") = "none";
  auto time = condition.append_child("ByValueCondition").append_child("SimulationTimeCondition");
  time.append_attribute("value") = value;
  time.append_attribute("rule") = "greaterThan";
}
}  // namespace

// a story read from a scenario: its act starts after one second, its event after two, and the act is stopped after ten
VERIF_HARNESS(story, "real,bounded=one element of each kind,cover=waiting,cover=running,cover=accomplished,cover=stopped")
{
  World world;
  auto node = append(world.document, "Story", "story");
  auto act_node = append(node, "Act", "act");
  auto group_node = append(act_node, "ManeuverGroup", "group");
  group_node.append_attribute("maximumExecutionCount") = "1";
  group_node.append_child("Actors").append_attribute("selectTriggeringEntities") = "false";
  append_trigger(append_event(append(group_node, "Maneuver", "maneuver"), "event", "parallel", "1"), "StartTrigger", "2");
  append_trigger(act_node, "StartTrigger", "1");
  append_trigger(act_node, "StopTrigger", "10");
  Story story(node, world.scope);
  auto & act = story.elements.front().as<Act>();
  auto & group = act.elements.front().as<ManeuverGroup>();
  auto & maneuver = group.elements.front().as<Maneuver>();
  auto & event = event_of(maneuver, 0);
  auto & command = command_of(event, 0);
  enum { waiting, started, running, done } phase = waiting;
  double time = 0;
  int starts = 0, runs = 0;
  for (int i = 0; i < 4; ++i) {
    const auto elapsed = verif::any_real("elapsed");
    verif::assume(elapsed > 0 and elapsed <= 20);
    time += elapsed;
    traffic_simulator::world.time = time;
    command.done = verif::any<bool>("done");
    story.evaluate();
    if (phase != done and phase != waiting and time > 10) {
      phase = done;
      verif::cover("stopped");
    }
    if (phase == waiting and time > 1) phase = started;
    if (phase == started and time > 2) {
      phase = running;
      ++starts;
    }
    if (phase == running) {
      ++runs;
      if (command.done) {
        phase = done;
        verif::cover("accomplished");
      }
    }
    if (phase == waiting) verif::cover("waiting");
    if (phase == running) verif::cover("running");
    verif::check(command.starts == starts and command.runs == runs, "an action is executed while every element around it runs");
    verif::check(act.is<State::standbyState>() == (phase == waiting) and act.is<State::completeState>() == (phase == done), "an act starts and stops by its triggers, or when its maneuver groups are complete");
    const auto inner = phase == waiting ? State::standbyState : phase == done ? State::completeState : State::runningState;
    verif::check(group.state().as<StoryboardElementState>() == inner and maneuver.state().as<StoryboardElementState>() == inner, "maneuver groups and maneuvers run with their act");
    verif::check(story.is<State::completeState>() == (phase == done) and story.is<State::runningState>() == (phase != done), "a story is complete when its acts are");
  }
}
