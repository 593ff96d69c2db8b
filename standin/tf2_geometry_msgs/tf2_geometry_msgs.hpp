// contract stand-in for tf2's rigid transforms: a rotation (a unit quaternion) and a translation, with the documented
// inverse, composition and message conversions
#pragma once
#include <tf2/LinearMath/Quaternion.h>

#include <geometry_msgs/msg/pose.hpp>
#include <geometry_msgs/msg/transform.hpp>

namespace tf2
{
struct Transform
{
  Quaternion rotation_{0, 0, 0, 1};
  Vector3 origin_;
  static Quaternion product(const Quaternion & a, const Quaternion & b)
  {
    return Quaternion(
      a.w() * b.x() + a.x() * b.w() + a.y() * b.z() - a.z() * b.y(), a.w() * b.y() + a.y() * b.w() + a.z() * b.x() - a.x() * b.z(),
      a.w() * b.z() + a.z() * b.w() + a.x() * b.y() - a.y() * b.x(), a.w() * b.w() - a.x() * b.x() - a.y() * b.y() - a.z() * b.z());
  }
  static Quaternion conjugate(const Quaternion & q) { return Quaternion(-q.x(), -q.y(), -q.z(), q.w()); }
  Vector3 turned(const Vector3 & v) const
  {
    const Quaternion r = product(product(rotation_, Quaternion(v.x(), v.y(), v.z(), 0)), conjugate(rotation_));
    return Vector3(r.x(), r.y(), r.z());
  }
  Transform inverse() const
  {
    Transform t;
    t.rotation_ = conjugate(rotation_);
    const Vector3 o = t.turned(origin_);
    t.origin_ = Vector3(-o.x(), -o.y(), -o.z());
    return t;
  }
  Transform operator*(const Transform & other) const
  {
    Transform t;
    t.rotation_ = product(rotation_, other.rotation_);
    const Vector3 o = turned(other.origin_);
    t.origin_ = Vector3(o.x() + origin_.x(), o.y() + origin_.y(), o.z() + origin_.z());
    return t;
  }
};
inline void fromMsg(const geometry_msgs::msg::Transform & in, Transform & out)
{
  out.rotation_ = Quaternion(in.rotation.x, in.rotation.y, in.rotation.z, in.rotation.w);
  out.origin_ = Vector3(in.translation.x, in.translation.y, in.translation.z);
}
inline void toMsg(const Transform & in, geometry_msgs::msg::Pose & out)
{
  out.position.x = in.origin_.x(), out.position.y = in.origin_.y(), out.position.z = in.origin_.z();
  out.orientation.x = in.rotation_.x(), out.orientation.y = in.rotation_.y(), out.orientation.z = in.rotation_.z(), out.orientation.w = in.rotation_.w();
}
}  // namespace tf2
