// Contracts of common/math/geometry: vectors and quaternions.
#include <verif.hpp>

#include <cmath>
#include <limits>
#include <geometry/quaternion/euler_to_quaternion.hpp>
#include <geometry/quaternion/direction_to_quaternion.hpp>
#include <geometry/quaternion/quaternion_to_euler.hpp>
#include <geometry/quaternion/get_angle_difference.hpp>
#include <geometry/quaternion/get_normal_vector.hpp>
#include <geometry/quaternion/get_rotation.hpp>
#include <geometry/quaternion/get_rotation_matrix.hpp>
#include <geometry/quaternion/make_quaternion.hpp>
#include <geometry/quaternion/norm.hpp>
#include <geometry/quaternion/normalize.hpp>
#include <geometry/quaternion/operator.hpp>
#include <geometry/quaternion/slerp.hpp>
#include <geometry/vector3/cross_2d.hpp>
#include <geometry/vector3/hypot.hpp>
#include <geometry/vector3/inner_product.hpp>
#include <geometry/vector3/internal_angle.hpp>
#include <geometry/vector3/is_finite.hpp>
#include <geometry/vector3/norm.hpp>
#include <geometry/vector3/normalize.hpp>
#include <geometry/vector3/operator.hpp>
#include <geometry/vector3/truncate.hpp>
#include <geometry/vector3/vector3.hpp>

using namespace math::geometry;
using Vector = geometry_msgs::msg::Vector3;
using Point = geometry_msgs::msg::Point;
using Quaternion = geometry_msgs::msg::Quaternion;

namespace
{
struct Plain { double x, y, z; };  // any type with x, y, z is a vector

// every real; natively of moderate size, where rounding stays below the tolerance of near()
double component(const char * name)
{
  const auto c = verif::any_real(name);
  return verif::native() and std::abs(c) > 1000 ? std::fmod(c, 1000) : c;
}

template <typename T>
T any_vec()
{
  T v;
  v.x = component("x"), v.y = component("y"), v.z = component("z");
  return v;
}
Quaternion any_quat()
{
  Quaternion q;
  q.x = component("qx"), q.y = component("qy"), q.z = component("qz"), q.w = component("qw");
  return q;
}
// a quaternion of norm 1: every one is a quotient v / |v|
Quaternion any_unit()
{
  auto q = any_quat();
  if (verif::native()) {
    const auto n = std::sqrt(q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w);
    verif::assume(n > 1e-3);
    q.x /= n, q.y /= n, q.z /= n, q.w /= n;
  } else {
    verif::assume(q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w == 1);
  }
  return q;
}
template <typename T>
double square(const T & v) { return v.x * v.x + v.y * v.y + v.z * v.z; }
void equal(const Quaternion & a, const Quaternion & b, const char * label)
{
  verif::check(verif::near(a.x, b.x), label);
  verif::check(verif::near(a.y, b.y), label);
  verif::check(verif::near(a.z, b.z), label);
  verif::check(verif::near(a.w, b.w), label);
}
}  // namespace

VERIF_HARNESS(vector_products, "real")
{
  const auto a = any_vec<Vector>();
  const auto b = any_vec<Point>();
  verif::check(verif::near(cross2d(a, b), a.x * b.y - a.y * b.x), "cross2d is the signed area");
  verif::check(verif::near(innerProduct(a, b), a.x * b.x + a.y * b.y + a.z * b.z), "innerProduct is the inner product");
  const auto n = norm(a), d = math::geometry::hypot(a, b);
  verif::check(n >= 0 and verif::near(n * n, square(a)), "norm is the Euclidean length");
  verif::check(d >= 0 and verif::near(d * d, (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z)), "hypot is the Euclidean distance");
  const auto v = vector3(a.x, a.y, a.z);
  verif::check(v.x == a.x and v.y == a.y and v.z == a.z, "vector3 keeps its components");
}

// isfinite, over every double
VERIF_HARNESS(vector_is_finite, "")
{
  Plain v{verif::any<double>("x"), verif::any<double>("y"), verif::any<double>("z")};
  const auto finite = [](double d) { return d == d and d - d == 0; };
  verif::check(math::geometry::isfinite(v) == (finite(v.x) and finite(v.y) and finite(v.z)), "a vector is finite exactly when its three components are");
}

template <typename A, typename B, typename R>
void operators()
{
  const auto a = any_vec<A>();
  const auto b = any_vec<B>();
  const auto k = verif::any_real("scalar");
  const auto s = a + b;
  static_assert(std::is_same_v<decltype(s), const R>);
  verif::check(verif::near(s.x, a.x + b.x) and verif::near(s.y, a.y + b.y) and verif::near(s.z, a.z + b.z), "sum");
  const auto d = a - b;
  verif::check(verif::near(d.x, a.x - b.x) and verif::near(d.y, a.y - b.y) and verif::near(d.z, a.z - b.z), "difference");
  const auto p = a * k;
  verif::check(verif::near(p.x, a.x * k) and verif::near(p.y, a.y * k) and verif::near(p.z, a.z * k), "product by a scalar");
  if (k != 0) {
    const auto q = a / k;
    verif::check(verif::near(q.x * k, a.x) and verif::near(q.y * k, a.y) and verif::near(q.z * k, a.z), "quotient by a scalar");
  }
  auto t = a;
  auto & r = t += b;
  verif::check(&r == &t and verif::near(t.x, a.x + b.x) and verif::near(t.y, a.y + b.y) and verif::near(t.z, a.z + b.z), "compound sum");
  constexpr auto e = std::numeric_limits<double>::epsilon();
  verif::check(math::geometry::operator==(a, b) == (std::abs(a.x - b.x) < e and std::abs(a.y - b.y) < e and std::abs(a.z - b.z) < e), "equality within machine epsilon in every component");
  verif::check(math::geometry::operator==(a, a), "equal to itself");
}

VERIF_HARNESS(vector_operators, "real") { operators<Vector, Point, Vector>(); }
VERIF_HARNESS(point_operators, "real") { operators<Point, Vector, Point>(); }

VERIF_HARNESS(vector_eigen_sum, "real")
{
  const auto a = any_vec<Point>();
  const Eigen::Vector3d e(verif::any_real("ex"), verif::any_real("ey"), verif::any_real("ez"));
  const auto s = a + e;
  verif::check(verif::near(s.x, a.x + e.x()) and verif::near(s.y, a.y + e.y()) and verif::near(s.z, a.z + e.z()), "sum with an Eigen vector");
}

VERIF_HARNESS(vector_truncate, "real")
{
  const auto v = any_vec<Vector>();
  const auto max = verif::any_real("max");
  verif::assume(max >= 0);
  const auto t = truncate(v, max);
  const auto long_enough = square(v) > max * max;
  if (not long_enough) {
    verif::check(verif::near(t.x, v.x) and verif::near(t.y, v.y) and verif::near(t.z, v.z), "a vector no longer than the limit is unchanged");
    verif::cover("short");
  } else {
    verif::check(verif::near(square(t), max * max), "a longer vector is shortened to the limit");
    verif::check(verif::near(t.x * v.y, t.y * v.x) and verif::near(t.y * v.z, t.z * v.y) and verif::near(t.x * v.z, t.z * v.x) and innerProduct(t, v) >= 0, "its direction is kept");
    verif::cover("long");
  }
}

VERIF_HARNESS(vector_normalize, "real")
{
  const auto v = any_vec<Vector>();
  const auto s = square(v);
  constexpr auto e = std::numeric_limits<double>::epsilon();
  try {
    const auto u = normalize(v);
    verif::check(s > e * e, "a vector of length zero has no direction");
    verif::check(verif::near(square(u), 1), "the result has length 1");
    verif::check(verif::near(u.x * v.y, u.y * v.x) and verif::near(u.y * v.z, u.z * v.y) and verif::near(u.x * v.z, u.z * v.x) and innerProduct(u, v) >= 0, "its direction is that of the vector");
    verif::cover("normalized");
  } catch (const common::SimulationError &) {
    verif::check(s <= e * e, "only a vector of length zero is rejected");
    verif::cover("rejected");
  }
}

VERIF_HARNESS(vector_internal_angle, "real")
{
  const auto a = any_vec<Vector>(), b = any_vec<Vector>();
  verif::assume(square(a) > (verif::native() ? 1e-3 : 0) and square(b) > (verif::native() ? 1e-3 : 0));
  const auto ip = a.x * b.x + a.y * b.y + a.z * b.z, c1 = a.y * b.z - a.z * b.y, c2 = a.z * b.x - a.x * b.z, c3 = a.x * b.y - a.y * b.x;
  const auto lengths = norm(a) * norm(b);
  verif::check(lengths > 0, "lemma: lengths are positive");
  if (not verif::native()) verif::check(lengths * lengths - ip * ip == c1 * c1 + c2 * c2 + c3 * c3, "lemma: Lagrange's identity");
  verif::lemma("bounded by a larger square", [](double i, double p, double s) { return verif::implies(p >= 0 and s >= 0 and p * p - i * i == s, -p <= i and i <= p); }, ip, lengths, c1 * c1 + c2 * c2 + c3 * c3);
  verif::lemma("a quotient by a bound", [](double i, double p) { return verif::implies(p > 0 and -p <= i and i <= p, -1 <= i / p and i / p <= 1); }, ip, lengths);
  verif::check(verif::le(ip, lengths) and verif::le(-lengths, ip), "lemma: Cauchy-Schwarz");
  try {
    const auto angle = getInternalAngle(a, b);
    verif::check(0 <= angle and angle <= 3.15, "the angle is in [0, pi]");
    verif::check(verif::near(std::cos(angle) * lengths, ip), "its cosine is the inner product over the lengths");
  } catch (const common::SimulationError &) {
    verif::check(verif::native(), "an angle exists between any two vectors");  // natively, rounding may leave [-1, 1]
  }
}

VERIF_HARNESS(quaternion_operators, "real")
{
  const auto a = any_quat(), b = any_quat();
  const auto s = a + b, d = a - b;
  verif::check(verif::near(s.x, a.x + b.x) and verif::near(s.y, a.y + b.y) and verif::near(s.z, a.z + b.z) and verif::near(s.w, a.w + b.w), "sum");
  verif::check(verif::near(d.x, a.x - b.x) and verif::near(d.y, a.y - b.y) and verif::near(d.z, a.z - b.z) and verif::near(d.w, a.w - b.w), "difference");
  const auto p = a * b;
  verif::check(verif::near(p.w, a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z), "product: scalar part");
  verif::check(verif::near(p.x, a.w * b.x + b.w * a.x + (a.y * b.z - a.z * b.y)), "product: i");
  verif::check(verif::near(p.y, a.w * b.y + b.w * a.y + (a.z * b.x - a.x * b.z)), "product: j");
  verif::check(verif::near(p.z, a.w * b.z + b.w * a.z + (a.x * b.y - a.y * b.x)), "product: k");
  auto t = a;
  t += b;
  verif::check(verif::near(t.x, a.x + b.x) and verif::near(t.y, a.y + b.y) and verif::near(t.z, a.z + b.z) and verif::near(t.w, a.w + b.w), "compound sum");
  const auto n = norm(a);
  verif::check(n >= 0 and verif::near(n * n, a.x * a.x + a.y * a.y + a.z * a.z + a.w * a.w), "norm is the Euclidean length");
  const auto m = makeQuaternion(a.x, a.y, a.z, a.w);
  verif::check(m.x == a.x and m.y == a.y and m.z == a.z and m.w == a.w, "makeQuaternion keeps its components");
}

VERIF_HARNESS(quaternion_normalize, "real")
{
  const auto q = any_quat();
  const auto s = q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w;
  constexpr auto e = std::numeric_limits<double>::epsilon();
  try {
    const auto u = normalize(q);
    verif::check(s > e * e, "a zero quaternion cannot be normalized");
    verif::check(verif::near(u.x * u.x + u.y * u.y + u.z * u.z + u.w * u.w, 1), "the result has norm 1");
    verif::check(verif::near(u.x * u.x * s, q.x * q.x) and verif::near(u.y * u.y * s, q.y * q.y) and verif::near(u.z * u.z * s, q.z * q.z) and verif::near(u.w * u.w * s, q.w * q.w), "every component is scaled alike");
    verif::check(u.x * q.x >= 0 and u.y * q.y >= 0 and u.z * q.z >= 0 and u.w * q.w >= 0, "signs are kept");
    verif::cover("normalized");
  } catch (const common::SimulationError &) {
    verif::check(s <= e * e, "only a zero quaternion is rejected");
    verif::cover("rejected");
  }
}

// from * getRotation(from, to) == to, for unit quaternions
VERIF_HARNESS(quaternion_rotation, "real")
{
  const auto from = any_unit(), to = any_unit();
  const auto r = getRotation(from, to);
  const auto p = from * r;
  equal(p, to, "applying the rotation to the first orientation gives the second");
}

// the matrix rotates as the quaternion does: M v = q v q*
VERIF_HARNESS(quaternion_matrix, "real")
{
  const auto q = any_quat();
  const auto v = any_vec<Vector>();
  const auto m = getRotationMatrix(q);
  Quaternion pure, conjugate = q;
  pure.x = v.x, pure.y = v.y, pure.z = v.z, pure.w = 0;
  conjugate.x = -q.x, conjugate.y = -q.y, conjugate.z = -q.z;
  const auto r = (q * pure) * conjugate;
  verif::check(verif::near(m(0, 0) * v.x + m(0, 1) * v.y + m(0, 2) * v.z, r.x), "x of the rotated vector");
  verif::check(verif::near(m(1, 0) * v.x + m(1, 1) * v.y + m(1, 2) * v.z, r.y), "y of the rotated vector");
  verif::check(verif::near(m(2, 0) * v.x + m(2, 1) * v.y + m(2, 2) * v.z, r.z), "z of the rotated vector");
  const auto n = getNormalVector(q);
  verif::check(verif::near(n.x, 2 * (q.z * q.x + q.w * q.y)) and verif::near(n.y, 2 * (q.y * q.z - q.x * q.w)) and verif::near(n.z, q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z), "the normal vector is the rotated z axis");
}

VERIF_HARNESS(quaternion_angle, "real")
{
  const auto a = verif::native() ? any_unit() : any_quat(), b = verif::native() ? any_unit() : any_quat();
  const auto n2 = a.w * a.w + a.x * a.x + a.y * a.y + a.z * a.z;
  verif::assume(n2 > 0);
  const auto angle = getAngleDifference(a, b);
  // the vector and scalar parts of the rotation between them, inverse(a) * b
  const auto w = (a.w * b.w + a.x * b.x + a.y * b.y + a.z * b.z) / n2;
  const auto x = (a.w * b.x - a.x * b.w - a.y * b.z + a.z * b.y) / n2;
  const auto y = (a.w * b.y - a.y * b.w - a.z * b.x + a.x * b.z) / n2;
  const auto z = (a.w * b.z - a.z * b.w - a.x * b.y + a.y * b.x) / n2;
  verif::check(verif::near(angle, std::abs(2 * std::atan2(std::sqrt(x * x + y * y + z * z), std::abs(w)))), "the angle of the rotation between the orientations");
  if (verif::native()) {
    verif::check(0 <= angle and angle <= M_PI + 1e-9, "the angle is in [0, pi]");
    verif::check(std::abs(getAngleDifference(b, a) - angle) < 1e-6, "the angle does not depend on the order");
  }
}

VERIF_HARNESS(quaternion_slerp, "real")
{
  const auto a = any_unit();
  auto b = any_unit();
  if (verif::native() and verif::any<bool>("close")) b = normalize(a + makeQuaternion(b.x * 0.02, b.y * 0.02, b.z * 0.02, b.w * 0.02));
  const auto qr = a.w * b.w + a.x * b.x + a.y * b.y + a.z * b.z;
  // natively, rounding grows as the orientations get parallel
  verif::assume(qr > -1 and qr < 1 and 1.0 - qr * qr > (verif::native() ? 1e-5 : 1e-12));
  const auto s = std::sqrt(1.0 - qr * qr);
  verif::lemma("roots of the same square are equal", [](double u, double v) { return verif::implies(u >= 0 and v >= 0 and u * u == v * v, u == v); }, std::sin(std::acos(qr)), s);
  verif::check(verif::near(std::sin(std::acos(qr)), s), "lemma: sine of an arc cosine");
  const auto start = slerp(a, b, 0.0);
  equal(start, a, "starts at the first orientation");
  const auto end = slerp(a, b, 1.0);
  equal(end, b, "ends at the second orientation");
  // in between: a unit quaternion, at the proportional part of the angle from the first orientation
  const auto t = verif::any_real("t");
  verif::assume(0 <= t and t <= 1);
  const auto ph = std::acos(qr), pt = ph * t;
  verif::assume(verif::near(std::sin(ph - pt), std::sin(ph) * std::cos(pt) - std::cos(ph) * std::sin(pt)));  // sine of a difference
  const auto m = slerp(a, b, t);
  verif::check(verif::near(m.x * m.x + m.y * m.y + m.z * m.z + m.w * m.w, 1), "stays a unit quaternion");
  verif::check(verif::near(m.x * a.x + m.y * a.y + m.z * a.z + m.w * a.w, std::cos(pt)), "turns by the part t of the angle");
}

// conversions between Euler angles and quaternions
VERIF_HARNESS(euler_to_quaternion, "real")
{
  const auto v = any_vec<Vector>();
  const auto q = convertEulerAngleToQuaternion(v);
  const auto sr = std::sin(v.x * 0.5), cr = std::cos(v.x * 0.5), sp = std::sin(v.y * 0.5), cp = std::cos(v.y * 0.5), sy = std::sin(v.z * 0.5), cy = std::cos(v.z * 0.5);
  // yaw about z, then pitch about y, then roll about x: qz * qy * qx
  Quaternion qx, qy, qz;
  qx.x = sr, qx.y = 0, qx.z = 0, qx.w = cr;
  qy.x = 0, qy.y = sp, qy.z = 0, qy.w = cp;
  qz.x = 0, qz.y = 0, qz.z = sy, qz.w = cy;
  const auto e = (qz * qy) * qx;
  equal(q, e, "roll, pitch and yaw about the axes x, y and z");
}

VERIF_HARNESS(direction_to_quaternion, "real,native")
{
  const auto v = any_vec<Vector>();
  verif::assume(square(v) > 1e-3);
  const auto q = convertDirectionToQuaternion(v);
  const auto m = getRotationMatrix(q);
  const auto n = std::sqrt(square(v));
  verif::check(std::abs(m(0, 0) * n - v.x) < 1e-6 * n and std::abs(m(1, 0) * n - v.y) < 1e-6 * n and std::abs(m(2, 0) * n - v.z) < 1e-6 * n, "the x axis is turned into the direction");
  verif::check(std::abs(m(2, 1)) < 1e-9, "without roll");
}

VERIF_HARNESS(quaternion_to_euler, "real,native")
{
  const auto q = any_unit();
  const auto e = convertQuaternionToEulerAngle(q);
  verif::assume(std::abs(e.y) < 1.5);
  const auto r = convertEulerAngleToQuaternion(e);
  const auto same = r.x * q.x + r.y * q.y + r.z * q.z + r.w * q.w;
  verif::check(std::abs(std::abs(same) - 1) < 1e-6, "the Euler angles give the orientation back");
}
