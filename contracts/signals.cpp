// Contracts of traffic signal controllers: traffic_signal_controller.cpp, traffic_signals.cpp, phase.cpp,
// traffic_signal_state.cpp, traffic_signal_controller_action.cpp, traffic_signal_controller_condition.cpp,
// traffic_signal_state_action.cpp.
#include "interpreter.hpp"

#include <openscenario_interpreter/syntax/phase.hpp>
#include <openscenario_interpreter/syntax/traffic_signal_controller.hpp>
#include <openscenario_interpreter/syntax/traffic_signal_controller_action.hpp>
#include <openscenario_interpreter/syntax/traffic_signal_controller_condition.hpp>
#include <openscenario_interpreter/syntax/traffic_signal_state.hpp>
#include <openscenario_interpreter/syntax/traffic_signal_state_action.hpp>
#include <openscenario_interpreter/syntax/traffic_signals.hpp>
#undef private
#undef protected

#include <common/scenario_simulator_exception/src/scenario_simulator_exception.cpp>
#include <openscenario/openscenario_interpreter/src/object.cpp>
#include <openscenario/openscenario_interpreter/src/scope.cpp>
#include <openscenario/openscenario_interpreter/src/reader/attribute.cpp>
#include <openscenario/openscenario_interpreter/src/reader/element.cpp>
#include <openscenario/openscenario_interpreter/src/utility/demangle.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/boolean.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/double.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/phase.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller_action.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller_condition.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/traffic_signal_state.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/traffic_signal_state_action.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/traffic_signals.cpp>

using namespace openscenario_interpreter;

namespace
{
using Attributes = std::vector<std::pair<const char *, const char *>>;
auto element(pugi::xml_node parent, const char * kind, const Attributes & attributes = {}) -> pugi::xml_node
{
  auto node = parent.append_child(kind);
  for (const auto & [name, value] : attributes) node.append_attribute(name) = value;
  return node;
}

struct World
{
  Scope scope{nullptr};
  pugi::xml_document document;
  World() { SimulatorCore::activate(0, traffic_simulator::Configuration()); }
  ~World()
  {
    SimulatorCore::deactivate();
    traffic_simulator::world = traffic_simulator::World();
  }
};

// the requests since the last call, as "what id state"
auto shown() -> std::vector<std::string>
{
  std::vector<std::string> result;
  for (const auto & request : traffic_simulator::requests) {
    auto text = request.what;
    if (not request.numbers.empty()) text += request.numbers[0] == 1 ? " 1" : request.numbers[0] == 2 ? " 2" : " ?";
    for (const auto & x : request.texts) text += " " + x;
    result.push_back(text);
  }
  traffic_simulator::requests.clear();
  return result;
}
using Shown = std::vector<std::string>;

auto rejected(const std::function<void()> & f) -> bool
{
  try {
    f();
  } catch (const common::Error &) {
    return true;
  }
  return false;
}
}  // namespace

VERIF_HARNESS(signal_state, "")
{
  World world;
  struct Case
  {
    const char *id, *channel, *added, *cleared;
  };
  const Case cases[] = {
    {"1", "conventional", "addTrafficLightsState", "clearTrafficLightsState"},
    {"1 conventional", "conventional", "addTrafficLightsState", "clearTrafficLightsState"},
    {"1 v2i", "v2i", "addTrafficLightsState", "clearTrafficLightsState"},
    {"1 conventional_detected", "conventional_detected", "addState", "clearState"},
    {"1 v2i_detected", "v2i_detected", "addState", "clearState"},
  };
  for (const auto & [id, channel, added, cleared] : cases) {
    const TrafficSignalState state(element(world.document, "TrafficSignalState", {{"trafficSignalId", id}, {"state", "green"}}), world.scope);
    shown();
    state.evaluate();
    verif::check(shown() == Shown{channel + std::string(".") + added + " 1 green"}, "shows its state at the traffic light and channel named");
    state.clear();
    verif::check(shown() == Shown{channel + std::string(".") + cleared + " 1"}, "clears the state of the traffic light and channel named");
  }
  for (const auto & id : {"x", "1 radio", "1 v2i_", "1 v2i detected", "1 v2i_detected_", "detected", "1x"}) {
    verif::check(rejected([&]() { TrafficSignalState(element(world.document, "TrafficSignalState", {{"trafficSignalId", id}, {"state", "green"}}), world.scope); }), "rejects what names no traffic light or channel");
  }
  const auto unknown = [&](const char * id) { TrafficSignalState(element(world.document, "TrafficSignalState", {{"trafficSignalId", id}, {"state", "unknown"}}), world.scope); };
  verif::check(rejected([&]() { unknown("1"); }) and rejected([&]() { unknown("1 v2i"); }), "the true state of a traffic light is never unknown");
  verif::check(not rejected([&]() { unknown("1 conventional_detected"); }) and not rejected([&]() { unknown("1 v2i_detected"); }), "a detected state can be unknown");
}

VERIF_HARNESS(signal_state_action, "")
{
  World world;
  const TrafficSignalStateAction action(element(world.document, "TrafficSignalStateAction", {{"name", "2"}, {"state", "red"}}), world.scope);
  shown();
  action.start();
  verif::check(shown() == Shown{"conventional.setTrafficLightsState 2 red"}, "sets the state of the traffic light named");
  verif::check(TrafficSignalStateAction::accomplished(), "is done at once");
}

namespace
{
// a controller of three phases; light 1 shows green, amber, red, light 2 shows red in the first phase only
auto controller(pugi::xml_node parent, const char * name, const Attributes & more = {}) -> pugi::xml_node
{
  auto node = element(parent, "TrafficSignalController", {{"name", name}});
  for (const auto & [key, value] : more) node.append_attribute(key) = value;
  auto phase = element(node, "Phase", {{"name", "go"}, {"duration", "10"}});
  element(phase, "TrafficSignalState", {{"trafficSignalId", "1"}, {"state", "green"}});
  element(phase, "TrafficSignalState", {{"trafficSignalId", "2"}, {"state", "red"}});
  phase = element(node, "Phase", {{"name", "wait"}, {"duration", "3"}});
  element(phase, "TrafficSignalState", {{"trafficSignalId", "1"}, {"state", "amber"}});
  phase = element(node, "Phase", {{"name", "stop"}, {"duration", "12"}});
  element(phase, "TrafficSignalState", {{"trafficSignalId", "1"}, {"state", "red"}});
  return node;
}

const char * const phase_names[] = {"go", "wait", "stop"};

auto lasts(const TrafficSignalController & controller, int i, double duration) -> void { const_cast<Double &>(std::next(controller.phases.begin(), i)->duration).data = duration; }

// what showing phase i after phase before (-1: none) asks for
auto change(int before, int i) -> Shown
{
  const std::string clear = "conventional.clearTrafficLightsState", add = "conventional.addTrafficLightsState";
  Shown result;
  if (before >= 0) result.push_back(clear + " 1");
  if (before == 0) result.push_back(clear + " 2");
  result.push_back(clear + " 1");
  if (i == 0) result.push_back(clear + " 2");
  result.push_back(add + (i == 0 ? " 1 green" : i == 1 ? " 1 amber" : " 1 red"));
  if (i == 0) result.push_back(add + " 2 red");
  return result;
}

auto conventional(const Shown & all) -> Shown
{
  Shown result;
  for (const auto & x : all) {
    if (x.substr(0, 3) == "con") result.push_back(x);
  }
  return result;
}
}  // namespace

VERIF_HARNESS(phases, "real,cover=stays,cover=changes,bounded=three phases; a history of three evaluations")
{
  World world;
  TrafficSignalController signals(controller(world.document, "c"), world.scope);
  double durations[3];
  for (int i = 0; i < 3; ++i) {
    durations[i] = verif::any_real("duration");
    verif::assume(durations[i] >= 0);
    lasts(signals, i, durations[i]);
  }
  shown();
  traffic_simulator::world.time = verif::any_real("time");
  signals.evaluate();
  verif::check(conventional(shown()) == change(-1, 0) and signals.currentPhaseName() == "go", "begins with its first phase");
  verif::check(signals.currentPhaseSince() == traffic_simulator::world.time, "knows when its phase began");
  int current = 0;
  double since = traffic_simulator::world.time;
  for (int k = 0; k < 3; ++k) {
    const auto step = verif::any_real("step");
    verif::assume(step >= 0);
    traffic_simulator::world.time += step;
    signals.evaluate();
    if (traffic_simulator::world.time - since >= durations[current]) {
      verif::cover("changes");
      const auto next = (current + 1) % 3;
      verif::check(conventional(shown()) == change(current, next) and signals.currentPhaseName() == phase_names[next], "shows the next phase, after the last one the first, when the duration of the present one is over");
      since = traffic_simulator::world.time;
      current = next;
    } else {
      verif::cover("stays");
      verif::check(shown().empty() and signals.currentPhaseName() == phase_names[current], "shows a phase for its duration");
    }
    verif::check(signals.currentPhaseSince() == since, "knows when its phase began");
  }
}

VERIF_HARNESS(endless_phase, "")
{
  World world;
  auto node = element(world.document, "TrafficSignalController", {{"name", "c"}});
  element(node, "Phase", {{"name", "for ever"}});
  element(node, "Phase", {{"name", "never"}, {"duration", "1"}});
  TrafficSignalController signals(node, world.scope);
  signals.evaluate();
  const auto time = verif::any<double>("time");
  verif::assume(std::isfinite(time));
  traffic_simulator::world.time = time;
  signals.evaluate();
  verif::check(signals.currentPhaseName() == "for ever", "a phase without duration has no end");
}

VERIF_HARNESS(change_phase, "")
{
  World world;
  auto object = make<TrafficSignalController>(controller(world.document, "c"), world.scope);
  auto & signals = object.as<TrafficSignalController>();
  world.scope.insert("c", object);
  signals.evaluate();
  traffic_simulator::world.time = 5;
  const auto chosen = verif::any_in("chosen", 0, 2);
  TrafficSignalControllerAction action(element(world.document, "TrafficSignalControllerAction", {{"trafficSignalControllerRef", "c"}, {"phase", phase_names[chosen]}}), world.scope);
  const auto observed = verif::any_in("observed", 0, 2);
  TrafficSignalControllerCondition condition(element(world.document, "TrafficSignalControllerCondition", {{"trafficSignalControllerRef", "c"}, {"phase", phase_names[observed]}}), world.scope);
  verif::check(condition.evaluate().as<Boolean>() == (observed == 0), "the condition tells whether the controller is in the phase");
  shown();
  action.start();
  verif::check(conventional(shown()) == change(0, chosen) and signals.currentPhaseSince() == 5, "the action shows the phase named at once");
  verif::check(condition.evaluate().as<Boolean>() == (observed == chosen), "the condition tells whether the controller is in the phase");
  TrafficSignalControllerAction wrong(element(world.document, "TrafficSignalControllerAction", {{"trafficSignalControllerRef", "c"}, {"phase", "none"}}), world.scope);
  verif::check(rejected([&]() { wrong.start(); }) and signals.currentPhaseName() == phase_names[chosen], "rejects a phase that is not declared");
}

VERIF_HARNESS(reference, "real,bounded=a history of four evaluations,cover=begins,cover=waits")
{
  World world;
  auto node = element(world.document, "TrafficSignals");
  controller(node, "leader");
  controller(node, "follower", {{"reference", "leader"}, {"delay", "2"}});
  TrafficSignals signals(node, world.scope);
  auto & leader = world.scope.ref<TrafficSignalController>(std::string("leader"));
  auto & follower = world.scope.ref<TrafficSignalController>(std::string("follower"));
  const auto delay = verif::any_real("delay");
  verif::assume(delay >= 0);
  verif::check(follower.delay == 2, "reads its delay");
  const_cast<Double &>(follower.delay).data = delay;
  for (int i = 0; i < 3; ++i) {  // phases of the follower without end: it only follows its reference
    lasts(leader, i, 100);
    lasts(follower, i, std::numeric_limits<double>::infinity());
  }
  TrafficSignalControllerCondition begun(element(world.document, "TrafficSignalControllerCondition", {{"trafficSignalControllerRef", "follower"}, {"phase", "go"}}), world.scope);
  signals.evaluate();
  verif::check(leader.currentPhaseName() == "go" and not begun.evaluate().as<Boolean>(), "a controller with a reference waits for it");
  bool started = false;
  for (int k = 0; k < 3; ++k) {
    const auto step = verif::any_real("step");
    verif::assume(step > 0 and step < 30);
    traffic_simulator::world.time += step;
    verif::assume(started or traffic_simulator::world.time != delay);
    shown();
    signals.evaluate();
    const bool due = not started and traffic_simulator::world.time > delay;
    if (due)
      verif::cover("begins");
    else
      verif::cover("waits");
    verif::check(conventional(shown()) == (due ? change(-1, 0) : Shown()), "its first phase begins once when the delay after the first phase of the reference is over");
    started = started or due;
    verif::check(begun.evaluate().as<Boolean>() == started, "a controller that has not begun is in no phase");
  }
}

VERIF_HARNESS(reference_again, "")
{
  World world;
  auto node = element(world.document, "TrafficSignals");
  controller(node, "follower", {{"reference", "leader"}, {"delay", "2"}});
  controller(node, "leader");
  TrafficSignals signals(node, world.scope);
  auto & leader = world.scope.ref<TrafficSignalController>(std::string("leader"));
  auto & follower = world.scope.ref<TrafficSignalController>(std::string("follower"));
  const auto at = [&](double time) {
    traffic_simulator::world.time = time;
    signals.evaluate();
  };
  at(0);
  at(2.5);
  verif::check(follower.currentPhaseName() == "go" and follower.currentPhaseSince() == 2.5, "begins after the delay");
  follower.changePhaseTo("stop");
  leader.changePhaseTo("wait");
  at(3);
  leader.changePhaseTo("go");  // at 3
  at(4);
  verif::check(follower.currentPhaseName() == "stop", "goes on while the reference begins anew");
  at(5.5);
  verif::check(follower.currentPhaseName() == "go", "begins anew the delay after the reference does");
}

VERIF_HARNESS(cycle_time, "real")
{
  World world;
  TrafficSignalController signals(controller(world.document, "c"), world.scope);
  double sum = 0;
  for (int i = 0; i < 3; ++i) {
    const auto duration = verif::any_real("duration");
    verif::assume(duration >= 0);
    lasts(signals, i, duration);
    sum += duration;
  }
  verif::check(signals.cycleTime() == sum, "the cycle time is the sum of the durations of the phases");
}

VERIF_HARNESS(same_cycle_time, "bounded=six pairs of controllers")
{
  struct Case
  {
    const char *first, *second, *all;
    bool same;
  };
  const Case cases[] = {{"1.5", "1.5", "3", true},  {"0.5", "0.5", "0.4", false}, {"1", "2", "3", true},
                        {"1", "2", "3.5", false}, {"10.1", "20.2", "30.3", true}, {"1", "INF", "3", false}};
  for (const auto & [first, second, all, same] : cases) {
    World world;
    auto node = element(world.document, "TrafficSignals");
    auto a = element(node, "TrafficSignalController", {{"name", "a"}});
    element(a, "Phase", {{"name", "one"}, {"duration", first}});
    element(a, "Phase", {{"name", "two"}, {"duration", second}});
    auto b = element(node, "TrafficSignalController", {{"name", "b"}, {"reference", "a"}, {"delay", "1"}});
    element(b, "Phase", {{"name", "all"}, {"duration", all}});
    verif::check(rejected([&]() { TrafficSignals(node, world.scope); }) == not same, "a reference is accepted exactly when the cycle times are the same");
  }
}

VERIF_HARNESS(invalid_controllers, "")
{
  World world;
  const Attributes wrong[] = {
    {{"name", "c"}, {"delay", "-1"}, {"reference", "d"}},  // negative delay
    {{"name", "c"}, {"delay", "1"}},                       // delay without reference
    {{"name", "c"}, {"reference", "d"}},                   // reference without delay
  };
  for (const auto & attributes : wrong) {
    verif::check(rejected([&]() { TrafficSignalController(element(world.document, "TrafficSignalController", attributes), world.scope); }), "rejects a delay without reference, a reference without delay and a negative delay");
  }
  auto node = element(world.document, "TrafficSignals");
  controller(node, "c", {{"reference", "d"}, {"delay", "1"}});
  verif::check(rejected([&]() { TrafficSignals(node, world.scope); }), "rejects a reference to a controller that is not declared");
}

VERIF_HARNESS(predictions, "real,cover=predicted")
{
  World world;
  TrafficSignalController signals(controller(world.document, "c"), world.scope);
  traffic_simulator::world.v2i.insert(1);
  double durations[3];
  for (int i = 0; i < 3; ++i) {
    durations[i] = verif::any_real("duration");
    verif::assume(durations[i] >= 0);
    lasts(signals, i, durations[i]);
  }
  traffic_simulator::world.time = verif::any_real("time");
  traffic_simulator::requests.clear();
  signals.evaluate();
  std::vector<traffic_simulator::Request> predicted;
  int cleared = 0;
  for (const auto & request : traffic_simulator::requests) {
    if (request.what == "v2i.addTrafficLightsStatePrediction") predicted.push_back(request);
    if (request.what == "v2i.clearTrafficLightsStatePredictions") cleared += predicted.empty() ? 1 : 10;
  }
  verif::check(cleared == 1, "replaces the earlier predictions");
  verif::check(predicted.size() == 6, "predicts the next six phases");
  const char * const states[] = {"green", "amber", "red"};
  double after = 0;
  for (int k = 0; k < 6; ++k) {
    after += durations[k % 3];
    const auto & request = predicted[k];
    verif::cover("predicted");
    verif::check(request.numbers.size() == 2 and request.numbers[0] == 1 and request.texts.size() == 1 and request.texts[0] == states[(k + 1) % 3], "predicts the states of the phases in order");
    verif::check(request.numbers[1] == after, "each at the time its phase begins");
  }
}

VERIF_HARNESS(no_prediction, "")
{
  World world;
  auto node = controller(world.document, "c");
  element(node, "Phase", {{"name", "for ever"}});
  TrafficSignalController signals(node, world.scope);
  if (verif::any<bool>("sends")) traffic_simulator::world.v2i.insert(1);
  traffic_simulator::requests.clear();
  signals.changePhaseTo("stop");
  bool predicted = false;
  for (const auto & request : traffic_simulator::requests) predicted = predicted or request.what == "v2i.addTrafficLightsStatePrediction";
  verif::check(not predicted, "predicts nothing beyond a phase without end");
}
