// Contracts of the conversions between ROS messages and the messages exchanged with the simulator
// (simulation_interface): each field of the one is that of the other, whatever the target held before.
#include <verif.hpp>

#include <sstream>
#include <string>
#include <tuple>
#include <unordered_map>
#include <vector>
#include <traffic_simulator_msgs/msg/traffic_light_bulb_v1.hpp>
#include <simulation/simulation_interface/src/conversions.cpp>
#include <simulation/simulation_interface/src/operators.cpp>
#include <common/scenario_simulator_exception/src/scenario_simulator_exception.cpp>

namespace g = geometry_msgs;
namespace t = traffic_simulator_msgs;
namespace b = builtin_interfaces;
namespace c = autoware_control_msgs;
namespace v = autoware_vehicle_msgs;
namespace api = simulation_api_schema;
using namespace simulation_interface;

namespace
{
template <typename F>
bool refused(F f)
{
  try {
    f();
  } catch (const common::Error &) {
    return true;
  }
  return false;
}

// any content of a message of either kind
double real() { return verif::any<double>("real"); }
float single() { return static_cast<float>(verif::any<double>("single")); }
bool flag() { return verif::any<bool>("flag"); }
std::string text() { return verif::any<std::string>("text"); }
template <typename T>
void fill(T &);
template <typename T>
T any()
{
  T m;
  fill(m);
  return m;
}
#define MESSAGE(T) template <> void fill(T & m)
MESSAGE(b::msg::Time) { m.sec = verif::any<std::int32_t>("sec"), m.nanosec = verif::any<std::uint32_t>("nanosec"); }
MESSAGE(b::Time) { m.set_sec(verif::any<std::int32_t>("sec")), m.set_nanosec(verif::any<std::uint32_t>("nanosec")); }
MESSAGE(b::msg::Duration) { m.sec = verif::any<std::int32_t>("sec"), m.nanosec = verif::any<std::uint32_t>("nanosec"); }
MESSAGE(b::Duration) { m.set_sec(verif::any<std::int32_t>("sec")), m.set_nanosec(verif::any<std::uint32_t>("nanosec")); }
MESSAGE(rosgraph_msgs::msg::Clock) { fill(m.clock); }
MESSAGE(rosgraph_msgs::Clock) { fill(*m.mutable_clock()); }
MESSAGE(std_msgs::msg::Header) { fill(m.stamp), m.frame_id = text(); }
MESSAGE(std_msgs::Header) { fill(*m.mutable_stamp()), m.set_frame_id(text()); }
MESSAGE(g::msg::Point) { m.x = real(), m.y = real(), m.z = real(); }
MESSAGE(g::Point) { m.set_x(real()), m.set_y(real()), m.set_z(real()); }
MESSAGE(g::msg::Vector3) { m.x = real(), m.y = real(), m.z = real(); }
MESSAGE(g::Vector3) { m.set_x(real()), m.set_y(real()), m.set_z(real()); }
MESSAGE(g::msg::Quaternion) { m.x = real(), m.y = real(), m.z = real(), m.w = real(); }
MESSAGE(g::Quaternion) { m.set_x(real()), m.set_y(real()), m.set_z(real()), m.set_w(real()); }
MESSAGE(g::msg::Pose) { fill(m.position), fill(m.orientation); }
MESSAGE(g::Pose) { fill(*m.mutable_position()), fill(*m.mutable_orientation()); }
MESSAGE(g::msg::Twist) { fill(m.linear), fill(m.angular); }
MESSAGE(g::Twist) { fill(*m.mutable_linear()), fill(*m.mutable_angular()); }
MESSAGE(g::msg::Accel) { fill(m.linear), fill(m.angular); }
MESSAGE(g::Accel) { fill(*m.mutable_linear()), fill(*m.mutable_angular()); }
MESSAGE(t::msg::BoundingBox) { fill(m.center), fill(m.dimensions); }
MESSAGE(t::BoundingBox) { fill(*m.mutable_center()), fill(*m.mutable_dimensions()); }
MESSAGE(t::msg::Performance) { m.max_acceleration = real(), m.max_acceleration_rate = real(), m.max_deceleration = real(), m.max_deceleration_rate = real(), m.max_speed = real(); }
MESSAGE(t::Performance) { m.set_max_acceleration(real()), m.set_max_acceleration_rate(real()), m.set_max_deceleration(real()), m.set_max_deceleration_rate(real()), m.set_max_speed(real()); }
MESSAGE(t::msg::Axle) { m.max_steering = real(), m.wheel_diameter = real(), m.track_width = real(), m.position_x = real(), m.position_z = real(); }
MESSAGE(t::Axle) { m.set_max_steering(real()), m.set_wheel_diameter(real()), m.set_track_width(real()), m.set_position_x(real()), m.set_position_z(real()); }
MESSAGE(t::msg::Axles) { fill(m.front_axle), fill(m.rear_axle); }
MESSAGE(t::Axles) { fill(*m.mutable_front_axle()), fill(*m.mutable_rear_axle()); }
MESSAGE(t::msg::VehicleParameters) { m.name = text(), fill(m.bounding_box), fill(m.performance), fill(m.axles); }
MESSAGE(t::VehicleParameters) { m.set_name(text()), fill(*m.mutable_bounding_box()), fill(*m.mutable_performance()), fill(*m.mutable_axles()); }
MESSAGE(t::msg::PedestrianParameters) { m.name = text(), fill(m.bounding_box); }
MESSAGE(t::PedestrianParameters) { m.set_name(text()), fill(*m.mutable_bounding_box()); }
MESSAGE(t::msg::MiscObjectParameters) { m.name = text(), fill(m.bounding_box); }
MESSAGE(t::MiscObjectParameters) { m.set_name(text()), fill(*m.mutable_bounding_box()); }
MESSAGE(t::msg::ActionStatus) { m.current_action = text(), fill(m.twist), fill(m.accel), m.linear_jerk = real(); }
MESSAGE(t::ActionStatus) { m.set_current_action(text()), fill(*m.mutable_twist()), fill(*m.mutable_accel()), m.set_linear_jerk(real()); }
MESSAGE(t::msg::LaneletPose) { m.lanelet_id = verif::any<std::int64_t>("lanelet"), m.s = real(), m.offset = real(), fill(m.rpy); }
MESSAGE(t::LaneletPose) { m.set_lanelet_id(verif::any<std::int64_t>("lanelet")), m.set_s(real()), m.set_offset(real()), fill(*m.mutable_rpy()); }
MESSAGE(t::msg::EntityType) { m.type = static_cast<std::uint8_t>(verif::any_in("type", 0, 3)); }
MESSAGE(t::EntityType) { m.set_type(static_cast<t::EntityType_Enum>(verif::any_in("type", 0, 3))); }
MESSAGE(t::msg::EntitySubtype) { m.value = static_cast<std::uint8_t>(verif::any_in("subtype", 0, 7)); }
MESSAGE(t::EntitySubtype) { m.set_value(static_cast<t::EntitySubtype_Enum>(verif::any_in("subtype", 0, 7))); }
MESSAGE(t::msg::EntityStatus) { fill(m.type), fill(m.subtype), m.time = real(), m.name = text(), fill(m.bounding_box), fill(m.action_status), fill(m.pose), fill(m.lanelet_pose), m.lanelet_pose_valid = flag(); }
MESSAGE(t::EntityStatus) { fill(*m.mutable_type()), fill(*m.mutable_subtype()), m.set_time(real()), m.set_name(text()), fill(*m.mutable_bounding_box()), fill(*m.mutable_action_status()), fill(*m.mutable_pose()), fill(*m.mutable_lanelet_pose()), m.set_lanelet_pose_valid(flag()); }
MESSAGE(api::EntityStatus) { fill(*m.mutable_type()), fill(*m.mutable_subtype()), m.set_time(real()), m.set_name(text()), fill(*m.mutable_action_status()), fill(*m.mutable_pose()); }
MESSAGE(c::msg::Lateral) { fill(m.stamp), fill(m.control_time), m.steering_tire_angle = single(), m.steering_tire_rotation_rate = single(), m.is_defined_steering_tire_rotation_rate = flag(); }
MESSAGE(c::Lateral) { fill(*m.mutable_stamp()), fill(*m.mutable_control_time()), m.set_steering_tire_angle(single()), m.set_steering_tire_rotation_rate(single()), m.set_is_defined_steering_tire_rotation_rate(flag()); }
MESSAGE(c::msg::Longitudinal) { fill(m.stamp), fill(m.control_time), m.velocity = single(), m.acceleration = single(), m.jerk = single(), m.is_defined_acceleration = flag(), m.is_defined_jerk = flag(); }
MESSAGE(c::Longitudinal) { fill(*m.mutable_stamp()), fill(*m.mutable_control_time()), m.set_velocity(single()), m.set_acceleration(single()), m.set_jerk(single()), m.set_is_defined_acceleration(flag()), m.set_is_defined_jerk(flag()); }
MESSAGE(c::msg::Control) { fill(m.stamp), fill(m.control_time), fill(m.lateral), fill(m.longitudinal); }
MESSAGE(c::Control) { fill(*m.mutable_stamp()), fill(*m.mutable_control_time()), fill(*m.mutable_lateral()), fill(*m.mutable_longitudinal()); }
MESSAGE(v::msg::GearCommand) { fill(m.stamp), m.command = static_cast<std::uint8_t>(verif::any_in("gear", 0, 24)); }
MESSAGE(v::GearCommand) { fill(*m.mutable_stamp()), m.set_command(static_cast<v::GearCommand_Constants>(verif::any_in("gear", 0, 24))); }
MESSAGE(t::msg::Vertex) { m.time = real(), fill(m.position); }
MESSAGE(t::Vertex) { m.set_time(real()), fill(*m.mutable_position()); }
MESSAGE(t::msg::Polyline)
{
  for (int i = verif::any_in("vertices", 0, 3); i > 0; --i) m.vertices.push_back(any<t::msg::Vertex>());
}
MESSAGE(t::Polyline)
{
  for (int i = verif::any_in("vertices", 0, 3); i > 0; --i) fill(*m.add_vertices());
}
MESSAGE(t::msg::PolylineTrajectory) { m.initial_distance_offset = real(), m.dynamic_constraints_ignorable = flag(), m.base_time = real(), m.closed = flag(), fill(m.shape); }
MESSAGE(t::PolylineTrajectory) { m.set_initial_distance_offset(real()), m.set_dynamic_constraints_ignorable(flag()), m.set_base_time(real()), m.set_closed(flag()), fill(*m.mutable_shape()); }
#undef MESSAGE

// what either holds is what the other holds
bool equal(double x, double y) { return verif::same(x, y); }
bool equal(const std::string & x, const std::string & y) { return x == y; }
template <typename A, typename B>
std::enable_if_t<(std::is_integral_v<A> or std::is_enum_v<A>)and(std::is_integral_v<B> or std::is_enum_v<B>), bool> equal(A x, B y) { return static_cast<long long>(x) == static_cast<long long>(y); }
#define SAME(F) verif::check(equal(r.F, p.F()), "carries " #F)
#define PART(F) agree(r.F, p.F())
template <typename R, typename P>
void agree_xyz(const R & r, const P & p) { SAME(x), SAME(y), SAME(z); }
void agree(const b::msg::Time & r, const b::Time & p) { SAME(sec), SAME(nanosec); }
void agree(const b::msg::Duration & r, const b::Duration & p) { SAME(sec), SAME(nanosec); }
void agree(const rosgraph_msgs::msg::Clock & r, const rosgraph_msgs::Clock & p) { PART(clock); }
void agree(const std_msgs::msg::Header & r, const std_msgs::Header & p) { PART(stamp), SAME(frame_id); }
void agree(const g::msg::Point & r, const g::Point & p) { agree_xyz(r, p); }
void agree(const g::msg::Vector3 & r, const g::Vector3 & p) { agree_xyz(r, p); }
void agree(const g::msg::Quaternion & r, const g::Quaternion & p) { agree_xyz(r, p), SAME(w); }
void agree(const g::msg::Pose & r, const g::Pose & p) { PART(position), PART(orientation); }
void agree(const g::msg::Twist & r, const g::Twist & p) { PART(linear), PART(angular); }
void agree(const g::msg::Accel & r, const g::Accel & p) { PART(linear), PART(angular); }
void agree(const t::msg::BoundingBox & r, const t::BoundingBox & p) { PART(center), PART(dimensions); }
void agree(const t::msg::Performance & r, const t::Performance & p) { SAME(max_acceleration), SAME(max_acceleration_rate), SAME(max_deceleration), SAME(max_deceleration_rate), SAME(max_speed); }
void agree(const t::msg::Axle & r, const t::Axle & p) { SAME(max_steering), SAME(wheel_diameter), SAME(track_width), SAME(position_x), SAME(position_z); }
void agree(const t::msg::Axles & r, const t::Axles & p) { PART(front_axle), PART(rear_axle); }
void agree(const t::msg::VehicleParameters & r, const t::VehicleParameters & p) { SAME(name), PART(bounding_box), PART(performance), PART(axles); }
void agree(const t::msg::PedestrianParameters & r, const t::PedestrianParameters & p) { SAME(name), PART(bounding_box); }
void agree(const t::msg::MiscObjectParameters & r, const t::MiscObjectParameters & p) { SAME(name), PART(bounding_box); }
void agree(const t::msg::ActionStatus & r, const t::ActionStatus & p) { SAME(current_action), PART(twist), PART(accel), SAME(linear_jerk); }
void agree(const t::msg::LaneletPose & r, const t::LaneletPose & p) { SAME(lanelet_id), SAME(s), SAME(offset), PART(rpy); }
void agree(const t::msg::EntityType & r, const t::EntityType & p) { SAME(type); }
void agree(const t::msg::EntitySubtype & r, const t::EntitySubtype & p) { SAME(value); }
void agree(const t::msg::EntityStatus & r, const t::EntityStatus & p) { PART(type), PART(subtype), SAME(time), SAME(name), PART(bounding_box), PART(action_status), PART(pose), PART(lanelet_pose), SAME(lanelet_pose_valid); }
void agree(const t::msg::EntityStatus & r, const api::EntityStatus & p) { PART(type), PART(subtype), SAME(time), SAME(name), PART(action_status), PART(pose); }
void agree(const c::msg::Lateral & r, const c::Lateral & p) { PART(stamp), PART(control_time), SAME(steering_tire_angle), SAME(steering_tire_rotation_rate), SAME(is_defined_steering_tire_rotation_rate); }
void agree(const c::msg::Longitudinal & r, const c::Longitudinal & p) { PART(stamp), PART(control_time), SAME(velocity), SAME(acceleration), SAME(jerk), SAME(is_defined_acceleration), SAME(is_defined_jerk); }
void agree(const c::msg::Control & r, const c::Control & p) { PART(stamp), PART(control_time), PART(lateral), PART(longitudinal); }
void agree(const v::msg::GearCommand & r, const v::GearCommand & p) { PART(stamp), SAME(command); }
void agree(const t::msg::Vertex & r, const t::Vertex & p) { SAME(time), PART(position); }
void agree(const t::msg::Polyline & r, const t::Polyline & p)
{
  verif::check(static_cast<int>(r.vertices.size()) == p.vertices_size(), "carries every vertex");
  for (int i = 0; i < p.vertices_size() and i < static_cast<int>(r.vertices.size()); ++i) agree(r.vertices[i], p.vertices(i));
}
void agree(const t::msg::PolylineTrajectory & r, const t::PolylineTrajectory & p) { SAME(initial_distance_offset), SAME(dynamic_constraints_ignorable), SAME(base_time), SAME(closed), PART(shape); }
#undef SAME
#undef PART

// both ways, into a message that may hold anything
template <typename R, typename P>
void both_ways()
{
  if (verif::any<bool>("to the simulator")) {
    const R r = any<R>();
    P p = any<P>();
    toProto(r, p);
    agree(r, p);
  } else {
    const P p = any<P>();
    R r = any<R>();
    toMsg(p, r);
    agree(r, p);
  }
}
template <typename R, typename P>
void both_ways_returned()
{
  if (verif::any<bool>("to the simulator")) {
    const R r = any<R>();
    agree(r, toProtobufMessage(r));
  } else {
    const P p = any<P>();
    agree(toROS2Message(p), p);
  }
}
}  // namespace

VERIF_HARNESS(points, "") { both_ways<g::msg::Point, g::Point>(); }
VERIF_HARNESS(vectors, "") { both_ways<g::msg::Vector3, g::Vector3>(); }
VERIF_HARNESS(quaternions, "") { both_ways<g::msg::Quaternion, g::Quaternion>(); }
VERIF_HARNESS(poses, "") { both_ways<g::msg::Pose, g::Pose>(); }
VERIF_HARNESS(twists, "") { both_ways<g::msg::Twist, g::Twist>(); }
VERIF_HARNESS(accels, "") { both_ways<g::msg::Accel, g::Accel>(); }
VERIF_HARNESS(times, "") { both_ways<b::msg::Time, b::Time>(); }
VERIF_HARNESS(durations, "") { both_ways<b::msg::Duration, b::Duration>(); }
VERIF_HARNESS(clocks, "") { both_ways<rosgraph_msgs::msg::Clock, rosgraph_msgs::Clock>(); }
VERIF_HARNESS(headers, "") { both_ways<std_msgs::msg::Header, std_msgs::Header>(); }
VERIF_HARNESS(boxes, "") { both_ways<t::msg::BoundingBox, t::BoundingBox>(); }
VERIF_HARNESS(performances, "") { both_ways<t::msg::Performance, t::Performance>(); }
VERIF_HARNESS(axles, "") { both_ways<t::msg::Axle, t::Axle>(), both_ways<t::msg::Axles, t::Axles>(); }
VERIF_HARNESS(vehicles, "") { both_ways<t::msg::VehicleParameters, t::VehicleParameters>(); }
VERIF_HARNESS(pedestrians, "") { both_ways<t::msg::PedestrianParameters, t::PedestrianParameters>(); }
VERIF_HARNESS(objects, "") { both_ways<t::msg::MiscObjectParameters, t::MiscObjectParameters>(); }
VERIF_HARNESS(action_statuses, "") { both_ways<t::msg::ActionStatus, t::ActionStatus>(); }
VERIF_HARNESS(lanelet_poses, "") { both_ways<t::msg::LaneletPose, t::LaneletPose>(); }
VERIF_HARNESS(entity_types, "") { both_ways<t::msg::EntityType, t::EntityType>(); }
VERIF_HARNESS(entity_subtypes, "") { both_ways<t::msg::EntitySubtype, t::EntitySubtype>(); }
VERIF_HARNESS(statuses, "") { both_ways<t::msg::EntityStatus, t::EntityStatus>(); }
VERIF_HARNESS(statuses_sent, "") { both_ways<t::msg::EntityStatus, api::EntityStatus>(); }
VERIF_HARNESS(statuses_received, "")
{
  const auto p = any<api::EntityStatus>();
  auto r = any<t::msg::EntityStatus>();
  toMsg(p, r);
  verif::check(not r.lanelet_pose_valid and r.lanelet_pose == t::msg::LaneletPose() and r.bounding_box == t::msg::BoundingBox(), "a status received has no place on a lane and no box");
}
VERIF_HARNESS(lateral, "") { both_ways<c::msg::Lateral, c::Lateral>(); }
VERIF_HARNESS(longitudinal, "") { both_ways<c::msg::Longitudinal, c::Longitudinal>(); }
VERIF_HARNESS(control, "") { both_ways<c::msg::Control, c::Control>(); }
VERIF_HARNESS(gears, "") { both_ways<v::msg::GearCommand, v::GearCommand>(); }
VERIF_HARNESS(vehicle_commands, "")
{
  const auto control = any<c::msg::Control>();
  const auto gear = any<v::msg::GearCommand>();
  t::VehicleCommand p;
  toProto(std::make_tuple(control, gear), p);
  agree(control, p.control());
  agree(gear, p.gear_command());
}
VERIF_HARNESS(vertices, "") { both_ways_returned<t::msg::Vertex, t::Vertex>(); }
VERIF_HARNESS(polylines, "bounded=up to three vertices") { both_ways_returned<t::msg::Polyline, t::Polyline>(); }
VERIF_HARNESS(trajectories, "bounded=up to three vertices") { both_ways_returned<t::msg::PolylineTrajectory, t::PolylineTrajectory>(); }

VERIF_HARNESS(unknown_types, "")
{
  t::msg::EntityType type;
  type.type = static_cast<std::uint8_t>(verif::any_in("type", 4, 255));
  t::EntityType type_sent;
  verif::check(refused([&] { toProto(type, type_sent); }), "a type that is none is not sent");
  t::msg::EntitySubtype subtype;
  subtype.value = static_cast<std::uint8_t>(verif::any_in("subtype", 8, 255));
  t::EntitySubtype subtype_sent;
  verif::check(refused([&] { toProto(subtype, subtype_sent); }), "nor a subtype that is none");
  const auto n = verif::any<std::int32_t>("number");
  verif::assume(n < 0 or n > 7);
  type_sent.set_type(static_cast<t::EntityType_Enum>(n)), subtype_sent.set_value(static_cast<t::EntitySubtype_Enum>(n));
  verif::check(refused([&] { toMsg(type_sent, type); }) and refused([&] { toMsg(subtype_sent, subtype); }), "nor are they received");
}

namespace
{
// what the name of a colour, shape or status is on either side
struct Names
{
  int sent;
  int received;
};
}  // namespace

VERIF_HARNESS(traffic_lights, "")
{
  using Bulb = t::msg::TrafficLightBulbV1;
  const Names colors[] = {{api::TrafficLight::RED, Bulb::RED}, {api::TrafficLight::AMBER, Bulb::AMBER}, {api::TrafficLight::GREEN, Bulb::GREEN}, {api::TrafficLight::WHITE, Bulb::WHITE}, {api::TrafficLight::UNKNOWN_COLOR, Bulb::UNKNOWN}};
  const Names shapes[] = {{api::TrafficLight::CIRCLE, Bulb::CIRCLE}, {api::TrafficLight::LEFT_ARROW, Bulb::LEFT_ARROW}, {api::TrafficLight::RIGHT_ARROW, Bulb::RIGHT_ARROW}, {api::TrafficLight::UP_ARROW, Bulb::UP_ARROW},
                          {api::TrafficLight::DOWN_ARROW, Bulb::DOWN_ARROW}, {api::TrafficLight::DOWN_LEFT_ARROW, Bulb::DOWN_LEFT_ARROW}, {api::TrafficLight::DOWN_RIGHT_ARROW, Bulb::DOWN_RIGHT_ARROW}, {api::TrafficLight::CROSS, Bulb::CROSS}, {api::TrafficLight::UNKNOWN_SHAPE, Bulb::UNKNOWN}};
  const Names statuses[] = {{api::TrafficLight::SOLID_OFF, Bulb::SOLID_OFF}, {api::TrafficLight::SOLID_ON, Bulb::SOLID_ON}, {api::TrafficLight::FLASHING, Bulb::FLASHING}, {api::TrafficLight::UNKNOWN_STATUS, Bulb::UNKNOWN}};
  const auto color = colors[verif::any_in("color", 0, 4)], shape = shapes[verif::any_in("shape", 0, 8)], status = statuses[verif::any_in("status", 0, 3)];
  api::TrafficLight p;
  p.set_color(static_cast<api::TrafficLight_Color>(color.sent)), p.set_shape(static_cast<api::TrafficLight_Shape>(shape.sent)), p.set_status(static_cast<api::TrafficLight_Status>(status.sent)), p.set_confidence(single());
  Bulb r;
  r.color = verif::any<std::uint8_t>("before"), r.shape = verif::any<std::uint8_t>("before"), r.status = verif::any<std::uint8_t>("before"), r.confidence = single();
  toMsg(p, r);
  verif::check(r.color == color.received, "the colour of a bulb");
  verif::check(r.shape == shape.received, "its shape");
  verif::check(r.status == status.received, "its status");
  verif::check(equal(r.confidence, p.confidence()), "its confidence");
}

VERIF_HARNESS(printed, "")
{
  const char * types[] = {"EGO", "VEHICLE", "PEDESTRIAN", "MISC_OBJECT"};
  const char * subtypes[] = {"UNKNOWN", "CAR", "TRUCK", "BUS", "TRAILER", "MOTORCYCLE", "BICYCLE", "PEDESTRIAN"};
  const auto print = [](const auto & x) {
    using traffic_simulator_msgs::operator<<;
    std::stringstream s;
    s << x;
    return s.str();
  };
  const auto i = verif::any_in("type", 0, 3), j = verif::any_in("subtype", 0, 7);
  t::msg::EntityType a;
  a.type = static_cast<std::uint8_t>(i);
  t::EntityType b;
  b.set_type(static_cast<t::EntityType_Enum>(i));
  t::msg::EntitySubtype c;
  c.value = static_cast<std::uint8_t>(j);
  t::EntitySubtype d;
  d.set_value(static_cast<t::EntitySubtype_Enum>(j));
  verif::check(print(a) == types[i] and print(b) == types[i], "a type prints as its name");
  verif::check(print(c) == subtypes[j] and print(d) == subtypes[j], "a subtype prints as its name");
}
