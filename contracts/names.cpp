// Contracts of the names and endpoints by which the simulator's components identify themselves to each other:
// behaviour requests, routing graphs, routing configurations and options (traffic_simulator/data_type) and the
// transport endpoints (simulation_interface/constants).
#include <verif.hpp>

#include <cstdint>
#include <iostream>
#include <sstream>
#include <string>

#include <simulation/simulation_interface/src/constants.cpp>
#include <simulation/traffic_simulator/src/data_type/behavior.cpp>
#include <simulation/traffic_simulator/src/data_type/routing_graph_type.cpp>
#include <traffic_simulator/data_type/route_option.hpp>
#include <traffic_simulator/data_type/routing_configuration.hpp>

using traffic_simulator::RoutingConfiguration;
using traffic_simulator::RoutingGraphType;
using traffic_simulator::behavior::Request;

namespace
{
struct Named
{
  Request request;
  const char *printed, *plugin;  // plugin: the name the behaviour plugins know it by, if any
};
const Named requests[] = {
  {Request::NONE, "NONE", "none"},
  {Request::LANE_CHANGE, "LANE_CHANGE", "lane_change"},
  {Request::FOLLOW_LANE, "FOLLOW_LANE", "follow_lane"},
  {Request::FOLLOW_POLYLINE_TRAJECTORY, "FOLLOW_POLYLINE_TRAJECTORY", "follow_polyline_trajectory"},
  {Request::FOLLOW_CLOTHOID_TRAJECTORY, "FOLLOW_CLOTHOID_TRAJECTORY", nullptr},
  {Request::FOLLOW_NURBS_TRAJECTORY, "FOLLOW_NURBS_TRAJECTORY", nullptr},
  {Request::WALK_STRAIGHT, "WALK_STRAIGHT", "walk_straight"}};
}  // namespace

VERIF_HARNESS(request_string, "")
{
  const auto raw = verif::any<int>("request");
  std::string text;
  auto rejected = false;
  try {
    text = traffic_simulator::behavior::getRequestString(static_cast<Request>(raw));
  } catch (const common::SemanticError &) {
    rejected = true;
  }
  for (const auto & each : requests) {
    if (raw == static_cast<int>(each.request)) {
      verif::check(rejected == (each.plugin == nullptr), "rejects requests no plugin supports, and no other");
      verif::check(rejected or text == each.plugin, "is the name of the request");
      verif::cover("named");
      return;
    }
  }
  verif::check(rejected, "rejects what is no request");
}

VERIF_HARNESS(request_print, "")
{
  const auto raw = verif::any<int>("request");
  std::ostringstream os;
  os << static_cast<Request>(raw);
  for (const auto & each : requests) {
    if (raw == static_cast<int>(each.request)) {
      verif::check(os.str() == each.printed, "prints the name of the request");
      return;
    }
  }
  verif::check(os.str() == "NONE", "what is no request prints as none");
}

static std::string routing_name(int raw)
{
  return raw == 0 ? "VEHICLE" : raw == 1 ? "PEDESTRIAN" : raw == 2 ? "VEHICLE_WITH_ROAD_SHOULDER" : "UNKNOWN";
}

VERIF_HARNESS(routing_graph, "")
{
  static_assert(static_cast<int>(RoutingGraphType::VEHICLE) == 0);
  static_assert(static_cast<int>(RoutingGraphType::PEDESTRIAN) == 1);
  static_assert(static_cast<int>(RoutingGraphType::VEHICLE_WITH_ROAD_SHOULDER) == 2);
  const auto raw = verif::any_in("type", 0, 255);
  verif::check(to_string(static_cast<RoutingGraphType>(raw)) == routing_name(raw), "is the name of the routing graph");
}

VERIF_HARNESS(routing_configuration, "")
{
  RoutingConfiguration a(verif::any<bool>("a.allow")), b;
  verif::check(not b.allow_lane_change, "lane changes are not allowed unless requested");
  verif::check(b.routing_graph_type == RoutingGraphType::VEHICLE_WITH_ROAD_SHOULDER and a.routing_graph_type == b.routing_graph_type, "road shoulders are part of the graph by default");
  b.allow_lane_change = verif::any<bool>("b.allow");
  const auto x = verif::any_in("a.type", 0, 2), y = verif::any_in("b.type", 0, 2);
  a.routing_graph_type = static_cast<RoutingGraphType>(x);
  b.routing_graph_type = static_cast<RoutingGraphType>(y);
  verif::check((a == b) == (a.allow_lane_change == b.allow_lane_change && x == y), "equal exactly when every part is");
  std::ostringstream os;
  os << a;
  verif::check(os.str() == "{ allow_lane_change: " + std::string(a.allow_lane_change ? "true" : "false") + ", routing_graph_type: " + routing_name(x) + " }", "prints every part");
}

VERIF_HARNESS(route_option, "")
{
  traffic_simulator::route_option::v2::RouteOption fresh;
  verif::check(not fresh.allow_goal_modification and not fresh.use_lane_ids_for_routing, "nothing is allowed by default");
  traffic_simulator::route_option::v1::RouteOption old;
  verif::check(not old.allow_goal_modification, "nothing was allowed by default");
  old.allow_goal_modification = verif::any<bool>("allow");
  const traffic_simulator::RouteOption converted = old;
  verif::check(converted.allow_goal_modification == old.allow_goal_modification, "the conversion keeps what is allowed");
  verif::check(not converted.use_lane_ids_for_routing, "the conversion allows nothing new");
}

VERIF_HARNESS(endpoint, "")
{
  using namespace simulation_interface;
  const auto port = verif::any<unsigned>("port");
  const auto host = verif::any<std::string>("host");
  verif::check(getEndPoint(TransportProtocol::TCP, host, port) == "tcp://" + host + ":" + std::to_string(port), "an endpoint is protocol, host and port");
  verif::check(getEndPoint(TransportProtocol::TCP, HostName::LOCALHOST, port) == "tcp://localhost:" + std::to_string(port), "the local host");
  verif::check(getEndPoint(TransportProtocol::TCP, HostName::ANY, port) == "tcp://*:" + std::to_string(port), "every host");
  verif::check(protocol == TransportProtocol::TCP, "the protocol is TCP");
}

VERIF_HARNESS(endpoint_rejects, "")
{
  using namespace simulation_interface;
  const auto raw = verif::any<int>("raw");
  auto p = false, h = false;
  try {
    enumToString(static_cast<TransportProtocol>(raw));
  } catch (const common::SimulationError &) {
    p = true;
  }
  try {
    enumToString(static_cast<HostName>(raw));
  } catch (const common::SimulationError &) {
    h = true;
  }
  verif::check(p == (raw != static_cast<int>(TransportProtocol::TCP)), "rejects what is no protocol");
  verif::check(h == (raw != static_cast<int>(HostName::LOCALHOST) and raw != static_cast<int>(HostName::ANY)), "rejects what is no host name");
}
