// Contracts of the random test runner's metrics (random_test_runner/metrics/*.hpp).
#include <verif.hpp>

#include <optional>
#include <string>
#include <unordered_map>

#include <geometry_msgs/msg/pose.hpp>
#include <geometry_msgs/msg/twist.hpp>
#include <traffic_simulator_msgs/msg/entity_status.hpp>

#ifndef VERIF_PUBLIC_ONLY
#define private public
#endif
#include <random_test_runner/data_types.hpp>
#include <random_test_runner/metrics/almost_standstill_metric.hpp>
#include <random_test_runner/metrics/ego_collision_metric.hpp>
#include <random_test_runner/metrics/goal_reached_metric.hpp>
#ifndef VERIF_PUBLIC_ONLY
#undef private
#endif

using traffic_simulator::CanonicalizedEntityStatus;

// A history of contacts at non-decreasing times: a report is new exactly when the previous contact with the same
// entity is more than half a second old, whatever happened with other entities in between.
static void contacts(int n)
{
  EgoCollisionMetric metric;
  std::string names[5];
  double times[5];
  auto now = verif::any_real("start");
  for (auto i = 0; i < n; ++i) {
    names[i] = verif::any<std::string>("name");
    const auto next = verif::any_real("time");
    verif::assume(i == 0 or now <= next);
    now = times[i] = next;
    auto recent = false;
    for (auto j = 0; j < i; ++j) {
      if (names[j] == names[i] and now - times[j] <= 0.5) recent = true;
    }
    verif::check(metric.isThereEgosCollisionWith(names[i], now) == not recent, "reports a collision exactly when there was none with that entity in the last half second");
  }
}
VERIF_HARNESS(contacts_1, "real") { contacts(1); }
VERIF_HARNESS(contacts_2, "real") { contacts(2); }
VERIF_HARNESS(contacts_3, "real") { contacts(3); }

#ifndef VERIF_PUBLIC_ONLY
// one contact from any state with up to three other entities remembered
VERIF_HARNESS(contact, "real,maxlen=3")
{
  EgoCollisionMetric metric;
  const auto name = verif::any<std::string>("name"), other = verif::any<std::string>("other");
  const auto known = verif::any<bool>("known"), other_known = verif::any<bool>("other known");
  const auto last = verif::any_real("last"), other_last = verif::any_real("other last"), now = verif::any_real("now");
  verif::assume(name != other);
  if (verif::any<bool>("first")) {
    if (known) metric.npc_last_collision_type_map_.emplace(name, last);
    if (other_known) metric.npc_last_collision_type_map_.emplace(other, other_last);
  } else {
    if (other_known) metric.npc_last_collision_type_map_.emplace(other, other_last);
    if (known) metric.npc_last_collision_type_map_.emplace(name, last);
  }
  const auto reported = metric.isThereEgosCollisionWith(name, now);
  verif::check(reported == not(known and now - last <= 0.5), "reports a collision exactly when none with that entity is recent");
  const auto & map = metric.npc_last_collision_type_map_;
  verif::check(map.count(name) == 1 and map.at(name) == now, "the contact is remembered");
  const auto kept = other_known and now - other_last <= 0.5;
  verif::check((map.count(other) == 1) == kept, "contacts with other entities are forgotten exactly when they are old");
  verif::check(not kept or map.at(other) == other_last, "contacts with other entities are not touched");
}
#endif

static CanonicalizedEntityStatus status(const char * time, const char * speed)
{
  CanonicalizedEntityStatus s;
  s.time = verif::any_real(time);
  s.twist.linear.x = verif::any_real(speed);
  return s;
}

#ifndef VERIF_PUBLIC_ONLY
// one status from any state: `since` has accumulated since the last motion
VERIF_HARNESS(standstill_step, "real")
{
  AlmostStandstillMetric metric;
  const auto since = verif::any_real("since");
  const auto last = status("last time", "last speed");
  const auto has = verif::any<bool>("has");
  metric.almost_standstill_time_ = since;
  if (has) metric.last_status_.emplace(last);
  const auto next = status("time", "speed");
  const auto dt = next.time - last.time;
  const auto reported = metric.isAlmostStandingStill(next);
  if (not has) {
    verif::check(not reported, "the first status reports nothing");
    verif::check(metric.last_status_ and metric.last_status_->time == next.time, "it is remembered");
    verif::check(metric.almost_standstill_time_ == since, "it adds no time");
  } else if (dt > 2) {
    verif::check(not reported, "a status after a gap reports nothing");
    verif::check(not metric.last_status_ and (metric.almost_standstill_time_ == 0 or metric.almost_standstill_time_ == since), "forgets the last status after a gap, and adds no time");
    verif::check(metric.almost_standstill_time_ == 0, "the observation starts again after a gap");
  } else {
    const auto time = next.twist.linear.x < 0.01 ? since + dt : 0;
    verif::check(metric.almost_standstill_time_ == time, "time passes while standing still, and motion resets it");
    verif::check(metric.last_status_ and metric.last_status_->time == next.time, "the status is remembered");
    verif::check(reported == (time > 10), "reports exactly a standstill of more than ten seconds");
  }
}
VERIF_HARNESS(standstill_start, "real")
{
  AlmostStandstillMetric metric;
  verif::check(not metric.last_status_ and metric.almost_standstill_time_ == 0, "no standstill is observed yet");
}
#endif

// the public interface: a history of statuses
VERIF_HARNESS(standstill_history, "real")
{
  AlmostStandstillMetric metric;
  auto time = 0.0, carried = 0.0, last = 0.0;  // carried: as if gaps did not count
  auto observed = false;
  for (auto i = 0; i < 4; ++i) {
    const auto s = status("time", "speed");
    const auto dt = s.time - last;
    auto expected = false, resumed = false;
    if (not observed) {
      observed = true;
    } else if (dt > 2) {
      observed = false;
      time = 0;
    } else {
      time = s.twist.linear.x < 0.01 ? time + dt : 0;
      carried = s.twist.linear.x < 0.01 ? carried + dt : 0;
      expected = time > 10;
      resumed = carried > 10;
    }
    last = s.time;
    const auto reported = metric.isAlmostStandingStill(s);
    verif::check(reported == expected or reported == resumed, "reports exactly a standstill of more than ten seconds since the last motion");
    verif::check(reported == expected, "a gap ends the standstill");
  }
}

VERIF_HARNESS(goal, "real")
{
  GoalReachedMetric metric;
  CanonicalizedEntityStatus s;
  s.pose.position.x = verif::any_real("x");
  s.pose.position.y = verif::any_real("y");
  s.pose.position.z = verif::any_real("z");
  verif::check(not metric.isGoalReached(s), "no goal is reached before one is set");
  geometry_msgs::msg::Pose a, b;
  a.position.x = verif::any_real("ax");
  b.position.x = verif::any_real("bx");
  b.position.y = verif::any_real("by");
  b.position.z = verif::any_real("bz");
  metric.setGoal(a);
  metric.setGoal(b);
  const auto dx = s.pose.position.x - b.position.x, dy = s.pose.position.y - b.position.y, dz = s.pose.position.z - b.position.z;
  verif::check(metric.isGoalReached(s) == (dx * dx + dy * dy + dz * dz < 9), "the goal set last is reached exactly within three metres");
}
