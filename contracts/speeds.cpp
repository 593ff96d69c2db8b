// Contracts of the longitudinal speed planner of traffic_simulator.
#include <verif.hpp>

#include <algorithm>
#include <cmath>
#include <geometry_msgs/msg/accel.hpp>
#include <geometry_msgs/msg/twist.hpp>
#include <traffic_simulator_msgs/msg/dynamic_constraints.hpp>
#include <tuple>
#include <simulation/traffic_simulator/src/behavior/longitudinal_speed_planning.cpp>
#include <common/scenario_simulator_exception/src/scenario_simulator_exception.cpp>

using traffic_simulator::longitudinal_speed_planning::LongitudinalSpeedPlanner;
using Twist = geometry_msgs::msg::Twist;
using Accel = geometry_msgs::msg::Accel;
using Constraints = traffic_simulator_msgs::msg::DynamicConstraints;

namespace
{
double component(const char * name)
{
  const auto c = verif::any_real(name);
  return verif::native() and std::abs(c) > 20 ? std::fmod(c, 20) : c;
}
bool close(double a, double b) { return verif::native() ? std::abs(a - b) <= 1e-6 * (1 + std::abs(a) + std::abs(b)) : a == b; }
bool below(double a, double b) { return verif::native() ? a <= b + 1e-6 * (1 + std::abs(a) + std::abs(b)) : a <= b; }
double step()
{
  auto d = component("step time");
  if (verif::native()) d = 0.001 + std::abs(std::fmod(d, 1));
  verif::assume(d > 0);
  return d;
}
double limit(const char * name)
{
  const auto l = verif::native() ? std::abs(component(name)) : component(name);
  verif::assume(l >= 0);
  return l;
}
Constraints limits()
{
  Constraints c;
  c.max_acceleration = limit("max acceleration"), c.max_acceleration_rate = limit("max acceleration rate");
  c.max_deceleration = limit("max deceleration"), c.max_deceleration_rate = limit("max deceleration rate");
  c.max_speed = limit("max speed");
  return c;
}
// a speed and an acceleration within the limits
void within(const Constraints & c, Twist & v, Accel & a)
{
  v.linear.x = component("speed"), a.linear.x = component("acceleration");
  if (verif::native()) v.linear.x = std::clamp(v.linear.x, -c.max_speed, c.max_speed), a.linear.x = std::clamp(a.linear.x, -c.max_deceleration, c.max_acceleration);
  verif::assume(-c.max_speed <= v.linear.x and v.linear.x <= c.max_speed and -c.max_deceleration <= a.linear.x and a.linear.x <= c.max_acceleration);
  v.linear.y = component("vy"), v.linear.z = component("vz"), a.linear.y = component("ay"), a.linear.z = component("az");
  v.angular.x = component("wx"), v.angular.y = component("wy"), v.angular.z = component("wz");
  a.angular.x = component("bx"), a.angular.y = component("by"), a.angular.z = component("bz");
}
}  // namespace

VERIF_HARNESS(speed_change, "real,cover=faster,cover=slower,cover=arrives")
{
  const LongitudinalSpeedPlanner planner(step(), "entity");
  const auto dt = planner.step_time;
  const auto c = limits();
  Twist v;
  Accel a;
  within(c, v, a);
  const auto target = component("target");
  const auto [w, b, jerk] = planner.getDynamicStates(target, c, v, a);
  const auto goal = std::clamp(target, -c.max_speed, c.max_speed);
  const auto before = v.linear.x, after = w.linear.x;
  if (goal >= before) {
    verif::check(below(before, after) and below(after, goal), "the speed rises, up to the target and never beyond");
    verif::check(below(b.linear.x, std::max(0., a.linear.x + dt * c.max_acceleration_rate)), "the acceleration rises no faster than allowed");
    verif::check(close(after, goal) or close(b.linear.x, std::min(c.max_acceleration, std::max(0., a.linear.x + dt * c.max_acceleration_rate))), "as fast as allowed");
    if (after > before) verif::cover("faster");
  } else {
    verif::check(below(after, before) and below(goal, after), "the speed falls, down to the target and never beyond");
    verif::check(below(std::min(0., a.linear.x - dt * c.max_deceleration_rate), b.linear.x), "the deceleration rises no faster than allowed");
    verif::check(close(after, goal) or close(b.linear.x, std::max(-c.max_deceleration, std::min(0., a.linear.x - dt * c.max_deceleration_rate))), "as fast as allowed");
    if (after < before) verif::cover("slower");
  }
  if (after == goal and before != goal) verif::cover("arrives");
  verif::check(below(-c.max_deceleration, b.linear.x) and below(b.linear.x, c.max_acceleration), "the acceleration stays within its limits");
  verif::check(below(-c.max_speed, after) and below(after, c.max_speed), "so does the speed");
  verif::check(close(b.linear.x * dt, after - before), "the acceleration given is that of the speed");
  verif::check(close(jerk * dt, b.linear.x - a.linear.x), "the jerk given is that of the acceleration");
}

VERIF_HARNESS(other_motion, "real")
{
  const LongitudinalSpeedPlanner planner(step(), "entity");
  const auto dt = planner.step_time;
  const auto c = limits();
  Twist v;
  Accel a;
  within(c, v, a);
  const auto [w, b, jerk] = planner.getDynamicStates(component("target"), c, v, a);
  verif::check(close(w.linear.y, v.linear.y + dt * a.linear.y) and close(w.linear.z, v.linear.z + dt * a.linear.z), "sideways and upwards the speed follows the acceleration");
  verif::check(close(w.angular.x, v.angular.x + dt * a.angular.x) and close(w.angular.y, v.angular.y + dt * a.angular.y) and close(w.angular.z, v.angular.z + dt * a.angular.z), "so does the turning");
  verif::check(close(b.linear.y * dt, w.linear.y - v.linear.y) and close(b.linear.z * dt, w.linear.z - v.linear.z) and close(b.angular.x * dt, w.angular.x - v.angular.x) and close(b.angular.y * dt, w.angular.y - v.angular.y) and close(b.angular.z * dt, w.angular.z - v.angular.z), "and the acceleration given is that of the speed");
}

VERIF_HARNESS(reached, "real")
{
  const LongitudinalSpeedPlanner planner(step(), "entity");
  Twist v;
  v.linear.x = component("speed"), v.linear.y = component("vy");
  const auto target = component("target"), tolerance = component("tolerance");
  const auto d = target > v.linear.x ? target - v.linear.x : v.linear.x - target;
  verif::check(planner.isTargetSpeedReached(target, v, tolerance) == (d <= tolerance), "a target is reached within the tolerance");
  verif::check(planner.isTargetSpeedReached(target, v) == (d <= 0.01), "of 0.01 unless another is given");
  verif::check(planner.isAccelerating(target, v) == (v.linear.x <= target) and planner.isDecelerating(target, v) == (v.linear.x >= target), "accelerating towards a higher target, decelerating towards a lower one");
}

VERIF_HARNESS(running_distance, "real,bounded=targets reached within three steps,cover=three")
{
  const LongitudinalSpeedPlanner planner(step(), "entity");
  const auto dt = planner.step_time;
  const auto c = limits();
  Twist v;
  Accel a;
  within(c, v, a);
  const auto target = component("target");
  double way = 0;
  int steps = 0;
  auto w = v;
  auto b = a;
  for (; steps < 3 and not planner.isTargetSpeedReached(target, w); ++steps) {
    const auto next = planner.getDynamicStates(target, c, w, b);
    w = std::get<0>(next), b = std::get<1>(next);
    way += w.linear.x * dt + b.linear.x * dt * dt / 2 + std::get<2>(next) * dt * dt * dt / 6;
  }
  verif::assume(planner.isTargetSpeedReached(target, w));
  if (steps == 3) verif::cover("three");
  verif::check(close(planner.getRunningDistance(target, c, v, a, component("jerk")), way), "the way until the target is reached adds up that of the steps");
}
