// Contracts of the storyboard life cycle: storyboard_element.hpp.
#include "interpreter.hpp"

#include <openscenario_interpreter/syntax/storyboard_element.hpp>
#undef private
#undef protected

#include <common/scenario_simulator_exception/src/scenario_simulator_exception.cpp>
#include <openscenario/openscenario_interpreter/src/object.cpp>
#include <openscenario/openscenario_interpreter/src/utility/demangle.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/boolean.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/trigger.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/condition_group.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/condition.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/condition_edge.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/storyboard_element_state.cpp>

using namespace openscenario_interpreter;
using State = StoryboardElementState::value_type;

namespace
{
// an element whose content and goal are given: it can be any element of a storyboard
struct Probe : public StoryboardElement
{
  std::vector<State> trace;  // states entered, in order
  int starts = 0, runs = 0, stops = 0;
  int finishing = 0;  // how many of the next questions for the goal are answered yes
  mutable int asked = 0;

  Probe(std::size_t maximum, bool startable, bool stopped)
  : StoryboardElement(maximum, startable ? Trigger::truthy() : Trigger())
  {
    if (stopped) stop_trigger = Trigger::truthy();
    listen();
  }
  auto listen() -> void
  {
    for (auto state : {State::standbyState, State::startTransition, State::runningState, State::endTransition, State::completeState, State::stopTransition, State::skipTransition})
      addTransitionCallback(state, [this, state](const StoryboardElement &) { trace.push_back(state); });
  }
  auto accomplished() const -> bool override { return asked++ < finishing; }
  auto start() -> void override { ++starts; }
  auto run() -> void override { ++runs; }
  auto stop() -> void override { ++stops; }
  auto enter(State state, std::size_t count) -> void
  {
    current_state = state == State::standbyState ? standby_state : state == State::runningState ? running_state : complete_state;
    current_execution_count = count;
  }
  auto count() const -> std::size_t { return current_execution_count; }
  auto value() const -> State { return state().as<StoryboardElementState>(); }
};

using Trace = std::vector<State>;
}  // namespace

VERIF_HARNESS(new_element, "")
{
  Probe probe(verif::any<std::size_t>("maximum"), verif::any<bool>("startable"), false);
  verif::check(probe.is<State::standbyState>() and probe.count() == 0 and probe.runs == 0 and probe.starts == 0, "waits in the standby state");
}

VERIF_HARNESS(standby, "cover=started,cover=waiting")
{
  const auto maximum = verif::any<std::size_t>("maximum"), count = verif::any<std::size_t>("count");
  verif::assume(count < maximum and maximum < 1000000);
  const auto startable = verif::any<bool>("startable");
  Probe probe(maximum, startable, false);
  probe.enter(State::standbyState, count);
  probe.evaluate();
  if (startable) {
    verif::cover("started");
    verif::check(probe.trace == Trace{State::startTransition, State::runningState}, "starts and runs as soon as its start trigger holds");
    verif::check(probe.starts == 1 and probe.runs == 1 and probe.stops == 0 and probe.count() == count + 1, "executes its content once");
    verif::check(probe.is<State::runningState>(), "is running");
  } else {
    verif::cover("waiting");
    verif::check(probe.trace == Trace{} and probe.starts == 0 and probe.runs == 0 and probe.count() == count and probe.is<State::standbyState>(), "waits while its start trigger does not hold");
  }
}

VERIF_HARNESS(running, "cover=again,cover=complete,cover=lasting")
{
  const auto maximum = verif::any<std::size_t>("maximum"), count = verif::any<std::size_t>("count");
  verif::assume(count <= maximum and maximum < 1000000 and count > 0);
  const auto finishing = verif::any<bool>("finishing");
  Probe probe(maximum, false, false);
  probe.enter(State::runningState, count);
  probe.finishing = finishing ? 1 : 0;
  probe.evaluate();
  verif::check(probe.runs == 1 and probe.starts == 0 and probe.stops == 0, "executes its content once");
  verif::check(probe.count() == count, "does not count a new execution");
  if (not finishing) {
    verif::cover("lasting");
    verif::check(probe.trace == Trace{} and probe.is<State::runningState>(), "runs until its goal is accomplished");
  } else if (count < maximum) {
    verif::cover("again");
    verif::check(probe.trace == Trace{State::endTransition, State::standbyState} and probe.is<State::standbyState>(), "waits for its next execution while some are left");
  } else {
    verif::cover("complete");
    verif::check(probe.trace == Trace{State::endTransition, State::completeState} and probe.is<State::completeState>(), "is complete after its last execution");
  }
}

// the goal can be accomplished in the evaluation that starts the element, any number of times below three
VERIF_HARNESS(immediate, "cover=last,cover=lasting")
{
  const auto maximum = verif::any<std::size_t>("maximum"), count = verif::any<std::size_t>("count");
  verif::assume(count < maximum and maximum < 1000000);
  Probe probe(maximum, true, false);
  probe.enter(State::standbyState, count);
  probe.finishing = verif::any<bool>("once") ? verif::any<bool>("twice") ? 2 : 1 : 0;
  probe.evaluate();
  Trace expected;
  auto executions = count;
  int asked = 0;
  while (true) {
    expected.push_back(State::startTransition);
    expected.push_back(State::runningState);
    ++executions;
    if (asked++ >= probe.finishing) break;
    expected.push_back(State::endTransition);
    if (executions >= maximum) {
      expected.push_back(State::completeState);
      verif::cover("last");
      break;
    }
    expected.push_back(State::standbyState);
    verif::cover("lasting");
  }
  verif::check(probe.trace == expected, "passes through every state of each execution");
  verif::check(probe.count() == executions and probe.count() <= maximum, "counts its executions, never more than the maximum");
  verif::check(probe.starts == probe.runs and static_cast<std::size_t>(probe.runs) == executions - count, "starts and executes its content once per execution");
}

VERIF_HARNESS(complete, "")
{
  const auto maximum = verif::any<std::size_t>("maximum"), count = verif::any<std::size_t>("count");
  verif::assume(count <= maximum and maximum < 1000000);
  Probe probe(maximum, verif::any<bool>("startable"), verif::any<bool>("stopped"));
  probe.enter(State::completeState, count);
  if (verif::any<bool>("overridden")) probe.override();
  probe.evaluate();
  verif::check(probe.trace == Trace{} and probe.starts == 0 and probe.runs == 0 and probe.stops == 0 and probe.is<State::completeState>() and probe.count() == count, "stays complete and does nothing");
}

VERIF_HARNESS(stopping, "cover=accomplished,cover=running")
{
  const auto maximum = verif::any<std::size_t>("maximum"), count = verif::any<std::size_t>("count");
  verif::assume(count <= maximum and maximum < 1000000 and count > 0);
  Probe probe(maximum, verif::any<bool>("startable"), true);
  probe.enter(State::runningState, count);
  probe.finishing = verif::any<bool>("accomplished") ? 1 : 0;
  probe.evaluate();
  verif::check(probe.trace == Trace{State::stopTransition, State::completeState} and probe.is<State::completeState>(), "a running element is stopped and complete as soon as its stop trigger holds");
  verif::check(probe.runs == 0 and probe.starts == 0, "its content is not executed any more");
  if (probe.finishing)
    verif::cover("accomplished");
  else
    verif::cover("running");
  verif::check(probe.stops == (probe.finishing ? 0 : 1), "what it has not accomplished is stopped");
  verif::check(probe.count() == count, "does not count a new execution");
}

VERIF_HARNESS(overriding, "")
{
  const auto running = verif::any<bool>("running");
  Probe probe(1, verif::any<bool>("startable"), false);
  const auto other = verif::any<bool>("complete") ? State::completeState : State::standbyState;
  probe.enter(running ? State::runningState : other, 1);
  probe.override();
  verif::check(running ? probe.is<State::stopTransition>() : probe.value() == other, "only a running element is overridden");
  verif::check(probe.trace == (running ? Trace{State::stopTransition} : Trace{}), "is overridden once");
  probe.override();
  verif::check(probe.trace == (running ? Trace{State::stopTransition} : Trace{}), "is overridden only once");
  if (running) {
    probe.evaluate();
    verif::check(probe.trace == Trace{State::stopTransition, State::completeState} and probe.is<State::completeState>() and probe.runs == 0 and probe.stops == 1, "then is complete");
  }
}

VERIF_HARNESS(callbacks, "")
{
  Probe probe(1, true, false);
  std::vector<int> order;
  const Object * seen = nullptr;
  probe.addTransitionCallback(State::startTransition, [&](const StoryboardElement & element) { order.push_back(element.is<State::startTransition>() ? 1 : -1); });
  probe.addTransitionCallback(State::runningState, [&](const StoryboardElement & element) { order.push_back(element.is<State::runningState>() ? 2 : -1); });
  probe.addTransitionCallback(State::startTransition, [&](const StoryboardElement & element) {
    order.push_back(3);
    seen = &element.state();
  });
  probe.evaluate();
  verif::check(order == std::vector<int>{1, 3, 2}, "every transition calls its own observers once, in the order they were added");
  verif::check(seen == &probe.state(), "observers see the element");
}

VERIF_HARNESS(cancelled, "")
{
  Probe probe(1, true, false);
  probe.addTransitionCallback(State::startTransition, [&](const StoryboardElement &) { probe.transitionTo(standby_state); });
  probe.evaluate();
  verif::check(probe.is<State::standbyState>() and probe.starts == 0 and probe.runs == 0 and probe.count() == 0, "a start that is taken back executes nothing");
  verif::check(probe.trace == Trace{State::startTransition, State::standbyState}, "and leaves the element waiting");
}

namespace
{
struct Parent : public StoryboardElement
{
  explicit Parent(bool stopped = false)
  {
    if (stopped) stop_trigger = Trigger::truthy();
  }
  auto add(const Object & child) -> void { elements.push_back(child); }
  auto enter(State state) -> void { current_state = state == State::standbyState ? standby_state : state == State::runningState ? running_state : complete_state; }
};

auto any_child() -> Object
{
  auto child = make<Probe>(1, verif::any<bool>("startable"), false);
  auto & probe = child.as<Probe>();
  const auto started = verif::any<bool>("started");
  probe.enter(not started ? State::standbyState : verif::any<bool>("complete") ? State::completeState : State::runningState, started ? 1 : 0);
  probe.finishing = verif::any<bool>("finishing") ? 1 : 0;
  return child;
}
}  // namespace

VERIF_HARNESS(children_run, "bounded=two children,cover=done,cover=lasting")
{
  Parent parent;
  std::vector<Object> children;
  std::vector<State> before;
  std::vector<bool> startable, finishing;
  const auto size = verif::any<bool>("two") ? 2 : 1;
  for (int i = 0; i < size; ++i) {
    children.push_back(any_child());
    auto & probe = children.back().as<Probe>();
    before.push_back(probe.value());
    startable.push_back(probe.start_trigger.size() > 0);
    finishing.push_back(probe.finishing > 0);
    parent.add(children.back());
  }
  parent.enter(State::runningState);
  parent.evaluate();
  bool all = true;
  for (int i = 0; i < size; ++i) {
    auto & probe = children[i].as<Probe>();
    const bool ran = before[i] == State::runningState or (before[i] == State::standbyState and startable[i]);
    verif::check(probe.runs == (ran ? 1 : 0), "every child is evaluated once");
    const auto after = before[i] == State::completeState or (ran and finishing[i]) ? State::completeState : ran ? State::runningState : State::standbyState;
    verif::check(probe.value() == after, "every child follows its own life cycle");
    all = all and after == State::completeState;
  }
  if (all)
    verif::cover("done");
  else
    verif::cover("lasting");
  verif::check(parent.is<State::completeState>() == all and parent.is<State::runningState>() == not all, "the goal of an element is that all its children are complete");
}

VERIF_HARNESS(children_stop, "bounded=two children,cover=running,cover=waiting")
{
  Parent parent(true);
  std::vector<Object> children;
  std::vector<State> before;
  for (int i = 0; i < 2; ++i) {
    children.push_back(any_child());
    before.push_back(children.back().as<Probe>().value());
    parent.add(children.back());
  }
  parent.enter(State::runningState);
  parent.evaluate();
  verif::check(parent.is<State::completeState>(), "the stopped element is complete");
  for (int i = 0; i < 2; ++i) {
    auto & probe = children[i].as<Probe>();
    if (before[i] == State::runningState) {
      verif::cover("running");
      verif::check(probe.is<State::completeState>() and probe.trace == Trace{State::stopTransition, State::completeState} and probe.runs == 0, "a running child is stopped");
    }
    if (before[i] == State::standbyState) {
      verif::cover("waiting");
      verif::check(probe.starts == 0 and probe.runs == 0, "a waiting child does not start while its parent stops");
      verif::check(probe.is<State::completeState>() and probe.trace == Trace{State::stopTransition, State::completeState} and probe.stops == 1, "a waiting child is stopped too");
    }
    if (before[i] == State::completeState) verif::check(probe.trace == Trace{} and probe.stops == 0, "a complete child stays complete");
  }
}
