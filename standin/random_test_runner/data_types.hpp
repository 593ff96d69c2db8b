// Stand-in for random_test_runner/data_types.hpp, which needs packages that are not installed: only the entity
// status as the metrics read it.
#pragma once
#include <cmath>
#include <geometry_msgs/msg/pose.hpp>
#include <geometry_msgs/msg/twist.hpp>
namespace traffic_simulator
{
struct CanonicalizedEntityStatus
{
  double time = 0;
  geometry_msgs::msg::Pose pose;
  geometry_msgs::msg::Twist twist;
  auto set(const CanonicalizedEntityStatus & other) -> void { *this = other; }
  auto getTime() const noexcept -> double { return time; }
  auto getMapPose() const noexcept -> const geometry_msgs::msg::Pose & { return pose; }
  auto getTwist() const noexcept -> const geometry_msgs::msg::Twist & { return twist; }
};
}  // namespace traffic_simulator
