// Contracts of the enumerated attribute types of openscenario_interpreter (src/syntax/*.cpp): the vocabulary
// each type reads and prints.
#include <verif.hpp>

#include <cstdint>
#include <iomanip>
#include <sstream>
#include <string>
#include <boost/lexical_cast.hpp>
#include <openscenario_interpreter/expression.hpp>
#include <openscenario_interpreter/object.hpp>
#include <openscenario_interpreter/pointer.hpp>

#include <openscenario/openscenario_interpreter/src/utility/demangle.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/command.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/condition_edge.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/coordinate_system.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/following_mode.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/fractional_cloud_cover.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/parameter_type.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/precipitation_type.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/priority.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/reference_context.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/relative_distance_type.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/route_strategy.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/routing_algorithm.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/rule.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/storyboard_element_state.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/storyboard_element_type.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/triggering_entities_rule.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/wetness.cpp>
#include <openscenario/openscenario_interpreter/src/compatibility.cpp>

using namespace openscenario_interpreter;

namespace
{
template <typename V>
struct Name
{
  const char * text;
  V value;
};

enum Reading { accepted, syntax_error, other_error };

// reads TEXT as T, the way an attribute is read
template <typename T>
Reading read(const std::string & text, T & value)
{
  try {
    value = boost::lexical_cast<T>(text);
    return accepted;
  } catch (const SyntaxError &) {
    return syntax_error;
  } catch (const std::exception &) {
    return other_error;
  }
}

bool is_word(const std::string & text)
{
  return not text.empty() and text.find_first_of(" \t\n\v\f\r") == std::string::npos;
}

// reading accepts exactly the names, and yields the value of the name
template <typename T, typename V>
void vocabulary(std::initializer_list<Name<V>> names)
{
  auto text = verif::any<std::string>("text");
  T value{};
  auto got = read(text, value);
  for (auto & name : names) {
    if (text == name.text) {
      verif::check(got == accepted, "accepts its identifiers");
      verif::check(value.value == name.value, "reads the value of that name");
      verif::cover("accepted");
      return;
    }
  }
  verif::check(got != accepted, "rejects everything else");
  verif::check(got == syntax_error or not is_word(text), "a word that is no supported identifier is a syntax error");
  verif::cover("rejected");
}

// every value prints its name, as which it reads back, when it is supported at all
template <typename T, typename V>
void printing(std::initializer_list<Name<V>> names)
{
  auto raw = verif::any<int>("value");
  for (auto & name : names) {
    if (raw == static_cast<int>(name.value)) {
      T value{};
      value.value = name.value;
      std::ostringstream os;
      os << value;
      verif::check(os.str() == name.text, "prints the identifier that reads as the value");
      verif::cover("printed");
    }
  }
}
}  // namespace

VERIF_HARNESS(command_reads, "")
{
  vocabulary<Command, Command::value_type>({
    {"exitFailure", Command::exitFailure}, {"exitSuccess", Command::exitSuccess}, {"nop", Command::nop}, {"print", Command::print}});
}
VERIF_HARNESS(command_prints, "")
{
  printing<Command, Command::value_type>({
    {"exitFailure", Command::exitFailure}, {"exitSuccess", Command::exitSuccess}, {"nop", Command::nop}, {"print", Command::print}});
}

VERIF_HARNESS(condition_edge_reads, "")
{
  vocabulary<ConditionEdge, ConditionEdge::value_type>({
    {"rising", ConditionEdge::rising}, {"falling", ConditionEdge::falling}, {"risingOrFalling", ConditionEdge::risingOrFalling}, {"none", ConditionEdge::none}, {"sticky", ConditionEdge::sticky}});
}
VERIF_HARNESS(condition_edge_prints, "")
{
  printing<ConditionEdge, ConditionEdge::value_type>({
    {"rising", ConditionEdge::rising}, {"falling", ConditionEdge::falling}, {"risingOrFalling", ConditionEdge::risingOrFalling}, {"none", ConditionEdge::none}, {"sticky", ConditionEdge::sticky}});
}

VERIF_HARNESS(coordinate_system_reads, "")
{
  vocabulary<CoordinateSystem, CoordinateSystem::value_type>({
    {"entity", CoordinateSystem::entity}, {"lane", CoordinateSystem::lane}});
}
VERIF_HARNESS(coordinate_system_prints, "")
{
  printing<CoordinateSystem, CoordinateSystem::value_type>({
    {"entity", CoordinateSystem::entity}, {"lane", CoordinateSystem::lane}, {"road", CoordinateSystem::road}, {"trajectory", CoordinateSystem::trajectory}});
}

VERIF_HARNESS(following_mode_reads, "")
{
  vocabulary<FollowingMode, FollowingMode::value_type>({
    {"follow", FollowingMode::follow}, {"position", FollowingMode::position}});
}
VERIF_HARNESS(following_mode_prints, "")
{
  printing<FollowingMode, FollowingMode::value_type>({
    {"follow", FollowingMode::follow}, {"position", FollowingMode::position}});
}

VERIF_HARNESS(fractional_cloud_cover_reads, "")
{
  vocabulary<FractionalCloudCover, FractionalCloudCover::value_type>({
    {"zeroOktas", FractionalCloudCover::zeroOktas}, {"oneOktas", FractionalCloudCover::oneOktas}, {"twoOktas", FractionalCloudCover::twoOktas}, {"threeOktas", FractionalCloudCover::threeOktas}, {"fourOktas", FractionalCloudCover::fourOktas}, {"fiveOktas", FractionalCloudCover::fiveOktas}, {"sixOktas", FractionalCloudCover::sixOktas}, {"sevenOktas", FractionalCloudCover::sevenOktas}, {"eightOktas", FractionalCloudCover::eightOktas}, {"nineOktas", FractionalCloudCover::nineOktas}});
}
VERIF_HARNESS(fractional_cloud_cover_prints, "")
{
  printing<FractionalCloudCover, FractionalCloudCover::value_type>({
    {"zeroOktas", FractionalCloudCover::zeroOktas}, {"oneOktas", FractionalCloudCover::oneOktas}, {"twoOktas", FractionalCloudCover::twoOktas}, {"threeOktas", FractionalCloudCover::threeOktas}, {"fourOktas", FractionalCloudCover::fourOktas}, {"fiveOktas", FractionalCloudCover::fiveOktas}, {"sixOktas", FractionalCloudCover::sixOktas}, {"sevenOktas", FractionalCloudCover::sevenOktas}, {"eightOktas", FractionalCloudCover::eightOktas}, {"nineOktas", FractionalCloudCover::nineOktas}});
}

VERIF_HARNESS(parameter_type_reads, "")
{
  vocabulary<ParameterType, ParameterType::value_type>({
    {"integer", ParameterType::INTEGER}, {"double", ParameterType::DOUBLE}, {"string", ParameterType::STRING}, {"unsignedInt", ParameterType::UNSIGNED_INT}, {"unsignedShort", ParameterType::UNSIGNED_SHORT}, {"boolean", ParameterType::BOOLEAN}, {"dateTime", ParameterType::DATE_TIME}});
}
VERIF_HARNESS(parameter_type_prints, "")
{
  printing<ParameterType, ParameterType::value_type>({
    {"integer", ParameterType::INTEGER}, {"double", ParameterType::DOUBLE}, {"string", ParameterType::STRING}, {"unsignedInt", ParameterType::UNSIGNED_INT}, {"unsignedShort", ParameterType::UNSIGNED_SHORT}, {"boolean", ParameterType::BOOLEAN}, {"dateTime", ParameterType::DATE_TIME}});
}

VERIF_HARNESS(precipitation_type_reads, "")
{
  vocabulary<PrecipitationType, PrecipitationType::value_type>({
    {"dry", PrecipitationType::dry}, {"rain", PrecipitationType::rain}, {"snow", PrecipitationType::snow}});
}
VERIF_HARNESS(precipitation_type_prints, "")
{
  printing<PrecipitationType, PrecipitationType::value_type>({
    {"dry", PrecipitationType::dry}, {"rain", PrecipitationType::rain}, {"snow", PrecipitationType::snow}});
}

VERIF_HARNESS(priority_reads, "")
{
  vocabulary<Priority, Priority::value_type>({
    {"parallel", Priority::parallel}, {"skip", Priority::skip}, {"override", Priority::override}, {"overwrite", Priority::override}});
}
VERIF_HARNESS(priority_prints, "")
{
  printing<Priority, Priority::value_type>({
    {"parallel", Priority::parallel}, {"skip", Priority::skip}, {"override", Priority::override}});
}

VERIF_HARNESS(reference_context_reads, "")
{
  vocabulary<ReferenceContext, ReferenceContext::value_type>({
    {"relative", ReferenceContext::relative}});
}
VERIF_HARNESS(reference_context_prints, "")
{
  printing<ReferenceContext, ReferenceContext::value_type>({
    {"relative", ReferenceContext::relative}, {"absolute", ReferenceContext::absolute}});
}

VERIF_HARNESS(relative_distance_type_reads, "")
{
  vocabulary<RelativeDistanceType, RelativeDistanceType::value_type>({
    {"longitudinal", RelativeDistanceType::longitudinal}, {"lateral", RelativeDistanceType::lateral}, {"euclidianDistance", RelativeDistanceType::euclidianDistance}, {"cartesianDistance", RelativeDistanceType::euclidianDistance}});
}
VERIF_HARNESS(relative_distance_type_prints, "")
{
  printing<RelativeDistanceType, RelativeDistanceType::value_type>({
    {"longitudinal", RelativeDistanceType::longitudinal}, {"lateral", RelativeDistanceType::lateral}, {"euclidianDistance", RelativeDistanceType::euclidianDistance}});
}

VERIF_HARNESS(route_strategy_reads, "")
{
  vocabulary<RouteStrategy, RouteStrategy::value_type>({
    {"shortest", RouteStrategy::shortest}});
}
VERIF_HARNESS(route_strategy_prints, "")
{
  printing<RouteStrategy, RouteStrategy::value_type>({
    {"shortest", RouteStrategy::shortest}, {"fastest", RouteStrategy::fastest}, {"leastIntersections", RouteStrategy::leastIntersections}, {"random", RouteStrategy::random}});
}

VERIF_HARNESS(routing_algorithm_reads, "")
{
  vocabulary<RoutingAlgorithm, RoutingAlgorithm::value_type>({
    {"assignedRoute", RoutingAlgorithm::assigned_route}, {"fastest", RoutingAlgorithm::fastest}, {"leastIntersections", RoutingAlgorithm::least_intersections}, {"shortest", RoutingAlgorithm::shortest}, {"undefined", RoutingAlgorithm::undefined}});
}
VERIF_HARNESS(routing_algorithm_prints, "")
{
  printing<RoutingAlgorithm, RoutingAlgorithm::value_type>({
    {"assignedRoute", RoutingAlgorithm::assigned_route}, {"fastest", RoutingAlgorithm::fastest}, {"leastIntersections", RoutingAlgorithm::least_intersections}, {"shortest", RoutingAlgorithm::shortest}, {"undefined", RoutingAlgorithm::undefined}});
}

VERIF_HARNESS(rule_reads, "")
{
  vocabulary<Rule, Rule::value_type>({
    {"equalTo", Rule::equalTo}, {"greaterThan", Rule::greaterThan}, {"lessThan", Rule::lessThan}, {"greaterOrEqual", Rule::greaterOrEqual}, {"lessOrEqual", Rule::lessOrEqual}, {"notEqualTo", Rule::notEqualTo}});
}
VERIF_HARNESS(rule_prints, "")
{
  printing<Rule, Rule::value_type>({
    {"equalTo", Rule::equalTo}, {"greaterThan", Rule::greaterThan}, {"lessThan", Rule::lessThan}, {"greaterOrEqual", Rule::greaterOrEqual}, {"lessOrEqual", Rule::lessOrEqual}, {"notEqualTo", Rule::notEqualTo}});
}

VERIF_HARNESS(storyboard_element_state_reads, "")
{
  vocabulary<StoryboardElementState, StoryboardElementState::value_type>({
    {"startTransition", StoryboardElementState::startTransition}, {"endTransition", StoryboardElementState::endTransition}, {"stopTransition", StoryboardElementState::stopTransition}, {"skipTransition", StoryboardElementState::skipTransition}, {"completeState", StoryboardElementState::completeState}, {"runningState", StoryboardElementState::runningState}, {"standbyState", StoryboardElementState::standbyState}});
}
VERIF_HARNESS(storyboard_element_state_prints, "")
{
  printing<StoryboardElementState, StoryboardElementState::value_type>({
    {"startTransition", StoryboardElementState::startTransition}, {"endTransition", StoryboardElementState::endTransition}, {"stopTransition", StoryboardElementState::stopTransition}, {"skipTransition", StoryboardElementState::skipTransition}, {"completeState", StoryboardElementState::completeState}, {"runningState", StoryboardElementState::runningState}, {"standbyState", StoryboardElementState::standbyState}});
}

VERIF_HARNESS(storyboard_element_type_reads, "")
{
  vocabulary<StoryboardElementType, StoryboardElementType::value_type>({
    {"act", StoryboardElementType::act}, {"action", StoryboardElementType::action}, {"event", StoryboardElementType::event}, {"maneuver", StoryboardElementType::maneuver}, {"maneuverGroup", StoryboardElementType::maneuverGroup}, {"story", StoryboardElementType::story}});
}
VERIF_HARNESS(storyboard_element_type_prints, "")
{
  printing<StoryboardElementType, StoryboardElementType::value_type>({
    {"act", StoryboardElementType::act}, {"action", StoryboardElementType::action}, {"event", StoryboardElementType::event}, {"maneuver", StoryboardElementType::maneuver}, {"maneuverGroup", StoryboardElementType::maneuverGroup}, {"story", StoryboardElementType::story}});
}

VERIF_HARNESS(triggering_entities_rule_reads, "")
{
  vocabulary<TriggeringEntitiesRule, TriggeringEntitiesRule::value_type>({
    {"all", TriggeringEntitiesRule::all}, {"any", TriggeringEntitiesRule::any}});
}
VERIF_HARNESS(triggering_entities_rule_prints, "")
{
  printing<TriggeringEntitiesRule, TriggeringEntitiesRule::value_type>({
    {"all", TriggeringEntitiesRule::all}, {"any", TriggeringEntitiesRule::any}});
}

VERIF_HARNESS(wetness_reads, "")
{
  vocabulary<Wetness, Wetness::value_type>({
    {"dry", Wetness::dry}, {"moist", Wetness::moist}, {"wetWithPuddles", Wetness::wetWithPuddles}, {"lowFlooded", Wetness::lowFlooded}, {"highFlooded", Wetness::highFlooded}});
}
VERIF_HARNESS(wetness_prints, "")
{
  printing<Wetness, Wetness::value_type>({
    {"dry", Wetness::dry}, {"moist", Wetness::moist}, {"wetWithPuddles", Wetness::wetWithPuddles}, {"lowFlooded", Wetness::lowFlooded}, {"highFlooded", Wetness::highFlooded}});
}

// the compatibility switch of the interpreter
VERIF_HARNESS(compatibility_reads, "")
{
  auto text = verif::any<std::string>("text");
  auto value = Compatibility::standard;
  auto got = accepted;
  try {
    value = boost::lexical_cast<Compatibility>(text);
  } catch (const std::exception &) {
    got = other_error;
  }
  verif::check((got == accepted) == (text == "legacy" or text == "standard"), "accepts exactly its identifiers");
  verif::check(got != accepted or (value == Compatibility::legacy) == (text == "legacy"), "reads the value of that name");
}
