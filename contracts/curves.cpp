// Contracts of math::geometry::HermiteCurve.
#include <verif.hpp>

#include <algorithm>
#include <cmath>
#include <complex>
#include <limits>
#include <optional>
#include <set>
#include <vector>
#include <gtest/gtest.h>
#ifndef VERIF_PUBLIC_ONLY
#define private public  // contracts set the length to any number
#endif
#include <geometry/spline/hermite_curve.hpp>
#undef private
#include <common/math/geometry/src/spline/hermite_curve.cpp>
#include <common/math/geometry/src/transform.cpp>

using namespace math::geometry;
using Point = geometry_msgs::msg::Point;
using Pose = geometry_msgs::msg::Pose;
using Vector = geometry_msgs::msg::Vector3;

#ifdef VERIF_NATIVE
#include <common/math/geometry/src/solver/polynomial_solver.cpp>
#else
// the contract of the equation solver (which the unit "solver" verifies): it gives some numbers in the range, here any
// two, and remembers the equation
namespace
{
double first_solution, second_solution, equation[4], range[2];
int solutions = 0, equations = 0;
}  // namespace
namespace math
{
namespace geometry
{
auto PolynomialSolver::solveCubicEquation(const double a, const double b, const double c, const double d, const double min, const double max) const -> std::vector<double>
{
  equation[0] = a, equation[1] = b, equation[2] = c, equation[3] = d, range[0] = min, range[1] = max;
  ++equations;
  std::vector<double> r;
  if (solutions > 0) r.push_back(first_solution);
  if (solutions > 1) r.push_back(second_solution);
  return r;
}
auto PolynomialSolver::cubic(const double a, const double b, const double c, const double d, const double t) const -> double { return a * t * t * t + b * t * t + c * t + d; }
auto PolynomialSolver::isApproximatelyEqualTo(const double a, const double b) const -> bool { return std::abs(a - b) <= tolerance; }
}  // namespace geometry
}  // namespace math
#endif

namespace
{
double component(const char * name)
{
  const auto c = verif::any_real(name);
  return verif::native() and std::abs(c) > 20 ? std::fmod(c, 20) : c;
}
template <typename T = Point>
T any_vector()
{
  T p;
  p.x = component("x"), p.y = component("y"), p.z = component("z");
  return p;
}
// Hermite's form of the curve, and its derivatives
struct Form
{
  Point p0, p1;
  Vector v0, v1;
  double at(double s, double a, double b, double u, double v) const { return (2 * s * s * s - 3 * s * s + 1) * a + (s * s * s - 2 * s * s + s) * u + (3 * s * s - 2 * s * s * s) * b + (s * s * s - s * s) * v; }
  double slope(double s, double a, double b, double u, double v) const { return (6 * s * s - 6 * s) * a + (3 * s * s - 4 * s + 1) * u + (6 * s - 6 * s * s) * b + (3 * s * s - 2 * s) * v; }
  double bend(double s, double a, double b, double u, double v) const { return (12 * s - 6) * a + (6 * s - 4) * u + (6 - 12 * s) * b + (6 * s - 2) * v; }
  double x(double s) const { return at(s, p0.x, p1.x, v0.x, v1.x); }
  double y(double s) const { return at(s, p0.y, p1.y, v0.y, v1.y); }
  double z(double s) const { return at(s, p0.z, p1.z, v0.z, v1.z); }
  double dx(double s) const { return slope(s, p0.x, p1.x, v0.x, v1.x); }
  double dy(double s) const { return slope(s, p0.y, p1.y, v0.y, v1.y); }
  double dz(double s) const { return slope(s, p0.z, p1.z, v0.z, v1.z); }
  double ddx(double s) const { return bend(s, p0.x, p1.x, v0.x, v1.x); }
  double ddy(double s) const { return bend(s, p0.y, p1.y, v0.y, v1.y); }
};
Form any_form() { return Form{any_vector(), any_vector(), any_vector<Vector>(), any_vector<Vector>()}; }
HermiteCurve curve_of(const Form & f)
{
  Pose a, b;
  a.position = f.p0, b.position = f.p1;
  HermiteCurve c(a, b, f.v0, f.v1);
#if not defined(VERIF_NATIVE) and not defined(VERIF_PUBLIC_ONLY)
  // what follows holds whatever the length is (the harness "length" says what it is)
  c.length_ = verif::any_real("length");
  verif::assume(c.length_ > 0);
#endif
  return c;
}
bool close(double a, double b) { return verif::native() ? std::abs(a - b) <= 1e-7 * (1 + std::abs(a) + std::abs(b)) : a == b; }
}  // namespace

VERIF_HARNESS(points, "real")
{
  const auto f = any_form();
  const auto c = curve_of(f);
  const auto s = verif::native() ? std::abs(std::fmod(component("s"), 2)) : component("s");
  const auto p = c.getPoint(s);
  verif::check(close(p.x, f.x(s)) and close(p.y, f.y(s)) and close(p.z, f.z(s)), "the point at s is that of Hermite's form");
  const auto a = c.getPoint(0), b = c.getPoint(1);
  verif::check(close(a.x, f.p0.x) and close(a.y, f.p0.y) and close(a.z, f.p0.z), "starts at the start");
  verif::check(close(b.x, f.p1.x) and close(b.y, f.p1.y) and close(b.z, f.p1.z), "ends at the goal");
  const auto t = c.getTangentVector(s);
  verif::check(close(t.x, f.dx(s)) and close(t.y, f.dy(s)) and close(t.z, f.dz(s)), "the tangent is the derivative");
  const auto u = c.getTangentVector(0), v = c.getTangentVector(1);
  verif::check(close(u.x, f.v0.x) and close(u.y, f.v0.y) and close(u.z, f.v0.z) and close(v.x, f.v1.x) and close(v.y, f.v1.y) and close(v.z, f.v1.z), "in the direction given at each end");
}

VERIF_HARNESS(places, "real")
{
  const auto f = any_form();
  const auto c = curve_of(f);
  const auto l = c.getLength();
  verif::assume(l > (verif::native() ? 1e-2 : 0));
  const auto s = verif::native() ? std::abs(std::fmod(component("s"), 1)) : component("s");
  const auto p = c.getPoint(s), q = c.getPoint(s * l, true);
  const auto t = c.getTangentVector(s), u = c.getTangentVector(s * l, true);
  const auto n = c.getNormalVector(s), m = c.getNormalVector(s * l, true);
  verif::check(close(p.x, q.x) and close(p.y, q.y) and close(p.z, q.z), "a distance along the curve is a part of its length: point");
  verif::check(close(t.x, u.x) and close(t.y, u.y) and close(t.z, u.z), "a distance along the curve is a part of its length: tangent");
  verif::check(close(n.x, m.x) and close(n.y, m.y) and n.z == 0 and m.z == 0, "a distance along the curve is a part of its length: normal");
  if (not verif::native()) verif::assume(std::cos(M_PI / 2.0) == 0 and std::sin(M_PI / 2.0) == 1);  // taken as exact: M_PI as the number pi
  verif::check(std::abs(n.x + t.y) <= 1e-6 * (1 + std::abs(t.y)) and std::abs(n.y - t.x) <= 1e-6 * (1 + std::abs(t.x)), "the normal is the tangent turned left by a right angle");
  const auto o = any_vector();
  const auto d = c.getSquaredDistanceIn2D(o, s), e = c.getSquaredDistanceIn2D(o, s * l, true);
  verif::check(close(d, (o.x - p.x) * (o.x - p.x) + (o.y - p.y) * (o.y - p.y)) and close(d, e), "squared plane distance to the point at s");
  const auto v = c.getSquaredDistanceVector(o, s), w = c.getSquaredDistanceVector(o, s * l, true);
  verif::check(close(v.x, o.x - p.x) and close(v.y, o.y - p.y) and close(v.z, o.z - p.z) and close(w.x, v.x) and close(w.y, v.y) and close(w.z, v.z), "way from the point at s");
}

VERIF_HARNESS(curvature, "real")
{
  const auto f = any_form();
  const auto c = curve_of(f);
  const auto s = verif::native() ? std::abs(std::fmod(component("s"), 1)) : component("s");
  const auto dx = f.dx(s), dy = f.dy(s);
  const auto t = c.getTangentVector(s);
  verif::assume(t.x * t.x + t.y * t.y > (verif::native() ? 1e-2 : 0));
  const bool absolute = verif::any<bool>("absolute");
  const auto l = c.getLength();
  verif::assume(not absolute or l > (verif::native() ? 1e-2 : 0));
  const auto k = absolute ? c.get2DCurvature(s * l, true) : c.get2DCurvature(s);
  verif::check(close(k * std::pow(t.x * t.x + t.y * t.y, 1.5), dx * f.ddy(s) - f.ddx(s) * dy), "the cross product of the derivatives over the cubed speed");
}

VERIF_HARNESS(greatest_curvature, "real,native")
{
  const auto f = any_form();
  const auto c = curve_of(f);
  for (int i = 0; i <= 10; ++i) verif::assume(std::hypot(f.dx(0.1 * i), f.dy(0.1 * i)) > 0.1);
  const auto k = c.getMaximum2DCurvature();
  bool reached = false;
  for (int i = 0; i <= 10; ++i) {
    const auto o = c.get2DCurvature(0.1 * i);
    verif::check(std::abs(o) <= std::abs(k) * (1 + 1e-9) + 1e-9, "no sampled curvature is greater");
    reached = reached or std::abs(o - k) <= 1e-9 * (1 + std::abs(k));
  }
  verif::check(reached, "it is that of a sample");
}

VERIF_HARNESS(poses, "real")
{
  const auto f = any_form();
  const auto c = curve_of(f);
  const auto s = verif::native() ? std::abs(std::fmod(component("s"), 1)) : component("s");
  const bool pitch = verif::any<bool>("pitch");
  const bool absolute = verif::any<bool>("absolute");
  const auto l = c.getLength();
  verif::assume(not absolute or l > (verif::native() ? 1e-2 : 0));
  const auto pose = absolute ? c.getPose(s * l, true, pitch) : c.getPose(s, false, pitch);
  const auto p = c.getPoint(s);
  const auto t = c.getTangentVector(s);
  verif::check(close(pose.position.x, p.x) and close(pose.position.y, p.y) and close(pose.position.z, p.z), "at the point at s");
  Vector e;
  e.x = 0, e.y = pitch ? std::atan2(-t.z, std::hypot(t.x, t.y)) : 0, e.z = std::atan2(t.y, t.x);
  const auto q = convertEulerAngleToQuaternion(e);
  verif::check(close(pose.orientation.x, q.x) and close(pose.orientation.y, q.y) and close(pose.orientation.z, q.z) and close(pose.orientation.w, q.w), "heads along the tangent, without roll, and without pitch unless asked for");
}

VERIF_HARNESS(length, "real,bounded=up to three parts")
{
  const auto f = any_form();
  const auto c = curve_of(f);
  const auto n = static_cast<std::size_t>(verif::any_in("parts", 1, 3));
  double sum = 0;
  for (std::size_t i = 0; i < n; ++i) {
    const auto t = c.getTangentVector(static_cast<double>(i) * (1.0 / static_cast<double>(n)));
    sum += std::sqrt(t.x * t.x + t.y * t.y + t.z * t.z) * (1.0 / static_cast<double>(n));
  }
  verif::check(close(c.getLength(n), sum), "the length is the sum of the lengths of equal parts, each as long as its tangent");
}

VERIF_HARNESS(trajectory, "real,bounded=up to four points")
{
  const auto f = any_form();
  const auto c = curve_of(f);
  const auto n = static_cast<std::size_t>(verif::any_in("points", 0, 4));
  const auto ps = c.getTrajectory(n);
  verif::check(ps.size() == n, "as many points as asked for");
  for (std::size_t i = 0; i < n; ++i) {
    const auto q = c.getPoint(n == 1 ? 0 : static_cast<double>(i) / static_cast<double>(n - 1));
    verif::check(close(ps[i].x, q.x) and close(ps[i].y, q.y) and close(ps[i].z, q.z), "equally spaced from the start to the goal");
  }
}

namespace
{
// the crossings of whole curves, against a fine subdivision
void search_crossings()
{
  const auto f = any_form();
  const auto c = curve_of(f);
  const auto a = any_vector(), b = any_vector();
  const bool backward = verif::any<bool>("backward"), absolute = verif::any<bool>("absolute");
  const auto ex = b.x - a.x, ey = b.y - a.y;
  verif::assume((ex == 0 or std::abs(ex) > 0.1) and (ey == 0 or std::abs(ey) > 0.1) and (ex != 0 or ey != 0));
  const auto found = c.getCollisionPointsIn2D(a, b, backward, absolute);
  const auto scale = absolute ? c.getLength() : 1.0;
  const auto cross = [&](double s) { return ex * (f.y(s) - a.y) - ey * (f.x(s) - a.x); };
  // the compiled code solves in rounded arithmetic: the equation has to be one that can be solved to some digits
  const auto q3 = ex * (2 * f.p0.y - 2 * f.p1.y + f.v0.y + f.v1.y) - ey * (2 * f.p0.x - 2 * f.p1.x + f.v0.x + f.v1.x);
  const auto q2 = ex * (-3 * f.p0.y + 3 * f.p1.y - 2 * f.v0.y - f.v1.y) - ey * (-3 * f.p0.x + 3 * f.p1.x - 2 * f.v0.x - f.v1.x);
  const auto q1 = ex * f.v0.y - ey * f.v0.x, size = std::abs(q3) + std::abs(q2) + std::abs(q1) + std::abs(cross(0));
  verif::assume(1e-2 < size and size < 1e4 and std::abs(q3) > 1e-2 * size);
  if (const auto d = q2 * q2 - 3 * q3 * q1; d >= -1e-3 * size * size)
    for (const auto e : {-1., 0., 1.}) verif::assume(std::abs(cross((-q2 + e * std::sqrt(std::max(d, 0.))) / (3 * q3))) > 1e-2 * size);
  for (const auto s : found) {
    verif::check(-1e-6 <= s / scale and s / scale <= 1 + 1e-6, "a place on the curve");
    const auto t = ((f.x(s / scale) - a.x) * ex + (f.y(s / scale) - a.y) * ey) / (ex * ex + ey * ey);
    verif::check(std::abs(cross(s / scale)) < 1e-3 * (1 + ex * ex + ey * ey) and -1e-2 < t and t < 1 + 1e-2, "where the curve is on the segment");
  }
  for (int i = 0; i < 64; ++i) {
    const auto s0 = i / 64.0, s1 = (i + 1) / 64.0;
    if (cross(s0) * cross(s1) < 0) {
      auto l = s0, h = s1;
      for (int k = 0; k < 50; ++k) (cross(l) * cross((l + h) / 2) <= 0 ? h : l) = (l + h) / 2;
      const auto t = ((f.x(l) - a.x) * ex + (f.y(l) - a.y) * ey) / (ex * ex + ey * ey);
      bool listed = false;
      for (const auto s : found) listed = listed or std::abs(s / scale - l) < 1e-4;
      if (1e-2 < t and t < 1 - 1e-2) verif::check(listed, "no crossing is missed");
    }
  }
  const auto one = c.getCollisionPointIn2D(a, b, backward, absolute);
  verif::check(one.has_value() == not found.empty(), "a crossing is given if there is one");
  if (one) verif::check(*one == (backward ? *found.rbegin() : *found.begin()), "the first one, or the last one searching backwards");
}
}  // namespace

// the equation solved for the crossings of the curve and a line segment
VERIF_HARNESS(crossing_equation, "real")
{
#ifdef VERIF_NATIVE
  search_crossings();
#else
  const auto f = any_form();
  const auto c = curve_of(f);
  const auto a = any_vector(), b = any_vector();
  verif::assume(b.x - a.x != 0 and b.y - a.y != 0);
  solutions = 0;
  const auto found = c.getCollisionPointsIn2D(a, b, verif::any<bool>("backward"), verif::any<bool>("absolute"));
  verif::check(equations <= 1, "one equation");
  if (equations == 1) {
    const auto s = verif::any_real("s");
    verif::check(equation[0] * s * s * s + equation[1] * s * s + equation[2] * s + equation[3] == (b.x - a.x) * (f.y(s) - a.y) - (b.y - a.y) * (f.x(s) - a.x), "it holds where the curve is on the line");
    verif::check(range[0] == 0 and range[1] == 1, "on the curve");
    verif::check(found.empty(), "without solutions, it crosses nowhere");
    verif::cover("equation");
  } else {
    verif::cover("on the line");
  }
#endif
}

// which of its solutions are crossings: a curve that is at the part t of the way from a to b at s
VERIF_HARNESS(crossings, "real")
{
#ifdef VERIF_NATIVE
  search_crossings();
#else
  const auto a = any_vector(), b = any_vector();
  const auto ex = b.x - a.x, ey = b.y - a.y;
  verif::assume(ex != 0 and ey != 0);
  const auto s = verif::any_real("s"), t = verif::any_real("t");
  const auto ax = component("ax"), bx = component("bx"), cx = component("cx"), ay = component("ay"), by = component("by"), cy = component("cy");
  HermiteCurve c(ax, bx, cx, a.x + t * ex - ax * s * s * s - bx * s * s - cx * s, ay, by, cy, a.y + t * ey - ay * s * s * s - by * s * s - cy * s, 0, 0, 1, 0);
  const auto p = c.getPoint(s);
  verif::check(p.x == a.x + t * ex and p.y == a.y + t * ey, "the point on the curve");
  const bool backward = verif::any<bool>("backward");
  solutions = 1, first_solution = s;
  const auto found = c.getCollisionPointsIn2D(a, b, backward, false);
  if (equations == 1) {
    verif::check(found.size() == (0 <= t and t <= 1 ? 1 : 0), "a solution is a crossing when it is on the segment");
    verif::check(found.empty() or *found.begin() == s, "at that place");
    verif::cover("equation");
  }
#endif
}

// the crossings of a polygon are those of its sides; of a pose, those of the way to its left and right
namespace
{
#ifndef VERIF_NATIVE
// the contract of the crossings of one segment: any place, none, or ones that depend on which segment it is
struct Asked
{
  Point a, b;
  bool backward, absolute;
};
std::vector<Asked> asked;
double answers[4][4];
bool crosses[4][4];
VERIF_CONTRACT("math::geometry::HermiteCurve::getCollisionPointsIn2D", "segments")
std::set<double> crossings_of_a_segment(const HermiteCurve &, const Point & a, const Point & b, bool backward, bool absolute)
{
  asked.push_back({a, b, backward, absolute});
  const auto i = a.z == 0 ? 0 : a.z == 1 ? 1 : a.z == 2 ? 2 : 3, j = b.z == 0 ? 0 : b.z == 1 ? 1 : b.z == 2 ? 2 : 3;
  std::set<double> r;
  if (crosses[i][j]) r.insert(answers[i][j]);
  return r;
}
#endif
}  // namespace

VERIF_HARNESS(crossings_of_polygons, "real,with=segments,bounded=up to three corners")
{
  const auto f = any_form();
  const auto c = curve_of(f);
  const auto n = static_cast<std::size_t>(verif::any_in("corners", 0, 3));
  const bool backward = verif::any<bool>("backward"), closed = verif::any<bool>("closed"), absolute = verif::any<bool>("absolute");
  std::vector<Point> polygon;
  for (std::size_t i = 0; i < n; ++i) {
    polygon.push_back(any_vector());
    polygon.back().z = i;
  }
#ifndef VERIF_NATIVE
  for (std::size_t i = 0; i < n; ++i) crosses[i][(i + 1) % n] = verif::any<bool>("crosses"), answers[i][(i + 1) % n] = verif::any_real("place");
  asked.clear();
#endif
  const auto found = c.getCollisionPointsIn2D(polygon, backward, closed, absolute);
#ifndef VERIF_NATIVE
  for (const auto & a : asked) verif::check(a.backward == backward and a.absolute == absolute, "each side is searched as the polygon is");
#endif
  std::set<double> sides;
  for (std::size_t i = 0; i + 1 < n; ++i)
    for (const auto s : c.getCollisionPointsIn2D(polygon[i], polygon[i + 1], backward, absolute)) sides.insert(s);
  if (closed and n > 1)
    for (const auto s : c.getCollisionPointsIn2D(polygon[n - 1], polygon[0], backward, absolute)) sides.insert(s);
  verif::check(found == sides, "the crossings of a polygon are those of its sides");
  const auto one = c.getCollisionPointIn2D(polygon, backward, closed, absolute);
  verif::check(one.has_value() == not sides.empty() and (not one or *one == (backward ? *sides.rbegin() : *sides.begin())), "the first of them, or the last one searching backwards");
}

VERIF_HARNESS(places_of_poses, "real,with=segments")
{
  const auto f = any_form();
  const auto c = curve_of(f);
  const bool absolute = verif::any<bool>("absolute");
  Pose pose;
  pose.position = any_vector();
  Vector e;
  e.x = e.y = 0, e.z = component("yaw");
  pose.orientation = convertEulerAngleToQuaternion(e);
  pose.position.z = 3;
  const auto width = component("width");
  Point l, r;
  l.y = width, r.y = -width;
  const auto line = transformPoints(pose, {l, r});
#ifdef VERIF_NATIVE
  const auto expected = c.getCollisionPointIn2D(line[0], line[1], false, false);
  const auto s = c.getSValue(pose, width, absolute);
  verif::check(s.has_value() == expected.has_value(), "a pose has a place when the curve crosses the way to its left and right");
  if (s) verif::check(close(*s, *expected * (absolute ? c.getLength() : 1)), "at the first crossing");
#else
  crosses[3][3] = verif::any<bool>("crosses"), answers[3][3] = verif::any_real("place");
  asked.clear();
  const auto s = c.getSValue(pose, width, absolute);
  verif::check(asked.size() == 1 and close(asked[0].a.x, line[0].x) and close(asked[0].a.y, line[0].y) and close(asked[0].b.x, line[1].x) and close(asked[0].b.y, line[1].y), "the way to its left and right is searched");
  verif::check(s.has_value() == crosses[3][3], "a pose has a place when the curve crosses the way to its left and right");
  if (s) verif::check(*s == answers[3][3] * (absolute and not asked[0].absolute ? c.getLength() : 1), "at the first crossing");
#endif
}

VERIF_HARNESS(crossings_of_curves, "real,native") { search_crossings(); }
