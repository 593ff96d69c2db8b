// contract stand-in for tf2: the documented conversions between quaternions and fixed-axis roll, pitch, yaw
#pragma once
#include <cmath>
namespace tf2
{
struct Vector3
{
  double m_[3];
  Vector3() : m_{0, 0, 0} {}
  Vector3(double x, double y, double z) : m_{x, y, z} {}
  double x() const { return m_[0]; }
  double y() const { return m_[1]; }
  double z() const { return m_[2]; }
};
struct Quaternion
{
  double x_, y_, z_, w_;
  Quaternion() : x_(0), y_(0), z_(0), w_(0) {}
  Quaternion(double x, double y, double z, double w) : x_(x), y_(y), z_(z), w_(w) {}
  double x() const { return x_; }
  double y() const { return y_; }
  double z() const { return z_; }
  double w() const { return w_; }
  double length2() const { return x_ * x_ + y_ * y_ + z_ * z_ + w_ * w_; }
  void setRPY(double roll, double pitch, double yaw)
  {
    const double sr = std::sin(roll * 0.5), cr = std::cos(roll * 0.5);
    const double sp = std::sin(pitch * 0.5), cp = std::cos(pitch * 0.5);
    const double sy = std::sin(yaw * 0.5), cy = std::cos(yaw * 0.5);
    x_ = sr * cp * cy - cr * sp * sy;
    y_ = cr * sp * cy + sr * cp * sy;
    z_ = cr * cp * sy - sr * sp * cy;
    w_ = cr * cp * cy + sr * sp * sy;
  }
};
struct Matrix3x3
{
  double m_[3][3];
  explicit Matrix3x3(const Quaternion & q)
  {
    const double s = 2.0 / q.length2();
    const double xs = q.x() * s, ys = q.y() * s, zs = q.z() * s;
    const double wx = q.w() * xs, wy = q.w() * ys, wz = q.w() * zs;
    const double xx = q.x() * xs, xy = q.x() * ys, xz = q.x() * zs;
    const double yy = q.y() * ys, yz = q.y() * zs, zz = q.z() * zs;
    m_[0][0] = 1 - (yy + zz), m_[0][1] = xy - wz, m_[0][2] = xz + wy;
    m_[1][0] = xy + wz, m_[1][1] = 1 - (xx + zz), m_[1][2] = yz - wx;
    m_[2][0] = xz - wy, m_[2][1] = yz + wx, m_[2][2] = 1 - (xx + yy);
  }
  void getRPY(double & roll, double & pitch, double & yaw) const
  {
    if (std::abs(m_[2][0]) >= 1) {
      yaw = 0;
      roll = std::atan2(m_[2][1], m_[2][2]);
      pitch = m_[2][0] < 0 ? M_PI / 2 : -M_PI / 2;
    } else {
      pitch = -std::asin(m_[2][0]);
      roll = std::atan2(m_[2][1] / std::cos(pitch), m_[2][2] / std::cos(pitch));
      yaw = std::atan2(m_[1][0] / std::cos(pitch), m_[0][0] / std::cos(pitch));
    }
  }
};
}  // namespace tf2
