// Contracts of math::geometry::CatmullRomSpline and CatmullRomSubspline over those of HermiteCurve (unit "curves") and
// LineSegment (unit "segments").
#include <verif.hpp>

#include <algorithm>
#include <cassert>
#include <cmath>
#include <limits>
#include <memory>
#include <optional>
#include <set>
#include <vector>
#include <gtest/gtest.h>
#ifndef VERIF_PUBLIC_ONLY
#define private public  // contracts set the crossings and lengths of the curves of a spline
#endif
#include <geometry/spline/catmull_rom_spline.hpp>
#include <geometry/spline/catmull_rom_subspline.hpp>
#undef private
#include <common/math/geometry/src/intersection/intersection.cpp>
#include <common/math/geometry/src/polygon/line_segment.cpp>
#include <common/math/geometry/src/solver/polynomial_solver.cpp>
#include <common/math/geometry/src/spline/hermite_curve.cpp>
#include <common/math/geometry/src/spline/catmull_rom_spline.cpp>
#include <common/math/geometry/src/spline/catmull_rom_subspline.cpp>
#include <common/math/geometry/src/transform.cpp>
#include <common/scenario_simulator_exception/src/scenario_simulator_exception.cpp>

using namespace math::geometry;
using Point = geometry_msgs::msg::Point;
using Pose = geometry_msgs::msg::Pose;
using Vector = geometry_msgs::msg::Vector3;

namespace
{
double component(const char * name)
{
  const auto c = verif::any_real(name);
  return verif::native() and std::abs(c) > 20 ? std::fmod(c, 20) : c;
}
template <typename T = Point>
T any_vector()
{
  T p;
  p.x = component("x"), p.y = component("y"), p.z = component("z");
  return p;
}
bool close(double a, double b) { return verif::native() ? std::abs(a - b) <= 1e-6 * (1 + std::abs(a) + std::abs(b)) : a == b; }
template <typename A, typename B>
bool close(const A & a, const B & b)
{
  return close(a.x, b.x) and close(a.y, b.y) and close(a.z, b.z);
}
template <typename F>
bool refused(F f)
{
  try {
    f();
  } catch (const common::Error &) {
    return true;
  }
  return false;
}

#ifndef VERIF_NATIVE
// the length of a curve is some positive number
VERIF_CONTRACT("math::geometry::HermiteCurve::getLength", "curves")
double length_of_a_curve(const HermiteCurve &, std::size_t)
{
  const auto l = verif::any_real("length");
  verif::assume(l > 0);
  return l;
}
// where only the places asked for matter: the points of a spline, of which no two are the same
VERIF_CONTRACT("math::geometry::CatmullRomSpline::getPose", "places")
Pose pose_at(const CatmullRomSpline &, const double s, const bool)
{
  Pose p;
  p.position.x = s;
  return p;
}
VERIF_CONTRACT("math::geometry::CatmullRomSpline::getPoint", "places")
Point point_with_offset_at(const CatmullRomSpline &, const double s, const double offset)
{
  Point p;
  p.x = s, p.y = offset;
  return p;
}
// points of a spline, and any direction across it, which some of them may share
Vector across;
VERIF_CONTRACT("math::geometry::CatmullRomSpline::getPoint", "bands")
Point middle_at(const CatmullRomSpline &, const double s)
{
  Point p;
  p.x = s, p.y = 3 - s, p.z = 5;
  return p;
}
VERIF_CONTRACT("math::geometry::CatmullRomSpline::getNormalVector", "bands")
Vector across_at(const CatmullRomSpline &, const double s)
{
  Vector v = across;
  if (s > 0) std::swap(v.x, v.y);
  return v;
}
// the crossings of one curve with what is asked: some places on it, told apart by their curves
std::vector<std::vector<double>> crossings;
bool absolute_asked = true, closed_asked = true;
std::size_t index_of(const HermiteCurve & c) { return c.az_ == 0 ? 0 : c.az_ == 1 ? 1 : 2; }
VERIF_CONTRACT("math::geometry::HermiteCurve::getCollisionPointsIn2D", "crossings")
std::set<double> crossings_with_a_polygon(const HermiteCurve & c, const std::vector<Point> &, bool, bool closed, bool absolute)
{
  closed_asked = closed_asked and closed, absolute_asked = absolute_asked and absolute;
  const auto & r = crossings[index_of(c)];
  return std::set<double>(r.begin(), r.end());
}
VERIF_CONTRACT("math::geometry::HermiteCurve::getCollisionPointsIn2D", "crossings")
std::set<double> crossings_with_a_segment(const HermiteCurve & c, const Point &, const Point &, bool, bool absolute)
{
  absolute_asked = absolute_asked and absolute;
  const auto & r = crossings[index_of(c)];
  return std::set<double>(r.begin(), r.end());
}
// the place of a pose on a curve, if it has one
std::vector<std::optional<double>> places;
VERIF_CONTRACT("math::geometry::HermiteCurve::getSValue", "crossings")
std::optional<double> place_on_a_curve(const HermiteCurve & c, const Pose &, double, bool absolute)
{
  absolute_asked = absolute_asked and absolute;
  return places[index_of(c)];
}
// the greatest curvature of a curve
std::vector<double> bends;
VERIF_CONTRACT("math::geometry::HermiteCurve::getMaximum2DCurvature", "crossings")
double bend_of_a_curve(const HermiteCurve & c) { return bends[index_of(c)]; }
// the crossings of a spline
std::set<double> all_crossings;
std::optional<std::pair<double, double>> range_asked;
VERIF_CONTRACT("math::geometry::CatmullRomSpline::getCollisionPointsIn2D", "parts")
std::set<double> crossings_with_a_spline(const CatmullRomSpline &, const std::vector<Point> &, const bool, const std::optional<std::pair<double, double>> & range)
{
  range_asked = range;
  std::set<double> r;
  for (const auto s : all_crossings)
    if (not range or (range->first <= s and s <= range->second)) r.insert(s);
  return r;
}
#endif

// neighbours of a chain differ
std::vector<Point> any_chain(std::size_t n)
{
  std::vector<Point> r;
  for (std::size_t i = 0; i < n; ++i) {
    r.push_back(any_vector());
    if (i > 0) verif::assume(verif::native() ? std::hypot(r[i].x - r[i - 1].x, r[i].y - r[i - 1].y) > 0.1 : r[i].x != r[i - 1].x or r[i].y != r[i - 1].y or r[i].z != r[i - 1].z);
  }
  return r;
}

// the cubic through neighbouring points of a chain: it heads there along the line between their neighbours, and ends as
// a quadratic at the ends of the chain
struct Piece
{
  Point p, q;
  Vector u, v;
  Piece(const std::vector<Point> & c, std::size_t i) : p(c[i]), q(c[i + 1])
  {
    const auto n = c.size();
    const auto slope = [&](auto m, std::size_t k) {
      if (k == 0) return (-3 * m(c[0]) + 4 * m(c[1]) - m(c[2])) / 2;
      if (k == n - 1) return (3 * m(c[k]) - 4 * m(c[k - 1]) + m(c[k - 2])) / 2;
      return (m(c[k + 1]) - m(c[k - 1])) / 2;
    };
    const auto x = [](const Point & a) { return a.x; };
    const auto y = [](const Point & a) { return a.y; };
    const auto z = [](const Point & a) { return a.z; };
    u.x = slope(x, i), u.y = slope(y, i), u.z = slope(z, i);
    v.x = slope(x, i + 1), v.y = slope(y, i + 1), v.z = slope(z, i + 1);
  }
  double at(double s, double a, double b, double c, double d) const { return (2 * s * s * s - 3 * s * s + 1) * a + (s * s * s - 2 * s * s + s) * c + (3 * s * s - 2 * s * s * s) * b + (s * s * s - s * s) * d; }
  double slope(double s, double a, double b, double c, double d) const { return (6 * s * s - 6 * s) * a + (3 * s * s - 4 * s + 1) * c + (6 * s - 6 * s * s) * b + (3 * s * s - 2 * s) * d; }
  Point point(double s) const
  {
    Point r;
    r.x = at(s, p.x, q.x, u.x, v.x), r.y = at(s, p.y, q.y, u.y, v.y), r.z = at(s, p.z, q.z, u.z, v.z);
    return r;
  }
  Vector tangent(double s) const
  {
    Vector r;
    r.x = slope(s, p.x, q.x, u.x, v.x), r.y = slope(s, p.y, q.y, u.y, v.y), r.z = slope(s, p.z, q.z, u.z, v.z);
    return r;
  }
};
// the distance along the spline at which a curve begins
double begin_of(const CatmullRomSpline & c, std::size_t i)
{
  double s = 0;
  for (std::size_t k = 0; k < i; ++k) s += c.getLengths()[k];
  return s;
}
}  // namespace

VERIF_HARNESS(shape, "real,with=curves,bounded=up to five control points")
{
  const auto points = any_chain(static_cast<std::size_t>(verif::any_in("points", 3, 5)));
  const CatmullRomSpline c(points);
  const auto n = points.size() - 1;
  verif::check(c.getLengths().size() == n and close(c.getLength(), begin_of(c, n)), "a spline is as long as its curves together");
  const auto k = static_cast<std::size_t>(verif::any_in("curve", 0, static_cast<int>(n) - 1));
  const Piece piece(points, k);
  // any place on the curve; the last one also at its end and beyond, the first one also before its start
  auto t = component("t");
  if (verif::native()) t = std::abs(std::fmod(t, 1));
  verif::assume((0 <= t or k == 0) and (t < 1 or k == n - 1));
  const auto s = begin_of(c, k) + t * c.getLengths()[k];
  verif::check(close(c.getPoint(s), piece.point(t)), "at a distance along the spline is the point of the curve there");
  verif::check(close(c.getTangentVector(s), piece.tangent(t)), "and its tangent");
  const auto o = any_vector();
  const auto p = piece.point(t);
  verif::check(close(c.getSquaredDistanceIn2D(o, s), (o.x - p.x) * (o.x - p.x) + (o.y - p.y) * (o.y - p.y)), "squared plane distance to it");
  const auto w = c.getSquaredDistanceVector(o, s);
  verif::check(close(w.x, o.x - p.x) and close(w.y, o.y - p.y) and close(w.z, o.z - p.z), "way from it");
}

namespace
{
// two points: the segment between them; three or more: the pieces
bool left_of(const Point & p, const Point & q, const Vector & t, double d)
{
  // p is d to the left of q, seen along t
  const auto h = std::hypot(t.x, t.y);
  return verif::native() ? close((p.x - q.x) * h, -t.y * d) and close((p.y - q.y) * h, t.x * d) : (p.x - q.x) * h == -t.y * d and (p.y - q.y) * h == t.x * d;
}
void take_pi() { if (not verif::native()) verif::assume(std::cos(M_PI / 2.0) == 0 and std::sin(M_PI / 2.0) == 1); }  // taken as exact: M_PI as the number pi
double any_place(const CatmullRomSpline & c)
{
  const auto l = c.getLength();
  const auto s = verif::native() ? std::abs(std::fmod(component("s"), 1)) * l : verif::any_real("s");
  verif::assume(0 <= s and s <= l);
  return s;
}
}  // namespace

VERIF_HARNESS(directions, "real,with=curves,bounded=up to four control points")
{
  const auto points = any_chain(static_cast<std::size_t>(verif::any_in("points", 2, 4)));
  const CatmullRomSpline c(points);
  const auto s = any_place(c);
  const auto p = c.getPoint(s);
  const auto t = c.getTangentVector(s), n = c.getNormalVector(s);
  take_pi();
  verif::check(std::abs(n.x + t.y) <= 1e-6 * (1 + std::abs(t.y)) and std::abs(n.y - t.x) <= 1e-6 * (1 + std::abs(t.x)), "the normal is the tangent turned left by a right angle");
  const bool pitch = verif::any<bool>("pitch");
  const auto pose = c.getPose(s, pitch);
  Vector e;
  e.x = 0, e.y = pitch ? std::atan2(-t.z, std::hypot(t.x, t.y)) : 0, e.z = std::atan2(t.y, t.x);
  const auto q = convertEulerAngleToQuaternion(e);
  verif::check(close(pose.position, p), "a pose is at the point");
  verif::check(close(pose.orientation.x, q.x) and close(pose.orientation.y, q.y) and close(pose.orientation.z, q.z) and close(pose.orientation.w, q.w), "and heads along the tangent");
}

VERIF_HARNESS(offsets, "real,with=curves,bounded=up to four control points")
{
  const auto points = any_chain(static_cast<std::size_t>(verif::any_in("points", 2, 4)));
  const CatmullRomSpline c(points);
  const auto s = any_place(c);
  const auto t = c.getTangentVector(s);
  verif::assume(verif::native() ? std::hypot(t.x, t.y) > 1e-2 : t.x != 0 or t.y != 0);
  take_pi();
  const auto d = component("offset");
  const auto p = c.getPoint(s), q = c.getPoint(s, d);
  verif::check(left_of(q, p, t, d) and q.z == p.z, "a point with an offset is that far to the left of the spline");
}

VERIF_HARNESS(few_points, "real,with=curves")
{
  verif::check(refused([] { CatmullRomSpline(std::vector<Point>{}); }), "no points make no spline");
  const auto p = any_vector(), o = any_vector();
  const auto s = component("s");
  const CatmullRomSpline one({p, p});
  verif::check(one.getLength() == 0, "one point has no length");
  verif::check(close(one.getPoint(0), p) and close(one.getSquaredDistanceIn2D(o, 0), (o.x - p.x) * (o.x - p.x) + (o.y - p.y) * (o.y - p.y)), "a spline of one point is the point");
  if (std::abs(s) > 1e-9) verif::check(refused([&] { one.getPoint(s); }) and refused([&] { one.getSquaredDistanceIn2D(o, s); }) and refused([&] { one.getSquaredDistanceVector(o, s); }), "and nothing else");
  verif::check(refused([&] { one.getTangentVector(s); }) and refused([&] { one.getNormalVector(s); }) and refused([&] { one.getPose(s); }), "without direction");
  const auto q = any_vector();
  verif::assume(verif::native() ? std::hypot(p.x - q.x, p.y - q.y) > 0.1 : p.x != q.x or p.y != q.y);
  const CatmullRomSpline two({p, q, q});
  const auto l = two.getLength();
  verif::check(close(l * l, (p.x - q.x) * (p.x - q.x) + (p.y - q.y) * (p.y - q.y) + (p.z - q.z) * (p.z - q.z)) and l > 0, "two points are a segment");
  verif::check(two.getLengths().size() == 1 and close(two.getLengths()[0], l), "the one part of it is as long");
  if (0 <= s and s <= l) {
    const auto r = two.getPoint(s);
    verif::check(close((r.x - p.x) * l, (q.x - p.x) * s) and close((r.y - p.y) * l, (q.y - p.y) * s) and close((r.z - p.z) * l, (q.z - p.z) * s), "the point at that part of the way");
    verif::check(close(two.getSquaredDistanceIn2D(o, s), (o.x - r.x) * (o.x - r.x) + (o.y - r.y) * (o.y - r.y)), "distance to it");
    const auto t = two.getTangentVector(s);
    verif::check(close(t.x, q.x - p.x) and close(t.y, q.y - p.y) and close(t.z, q.z - p.z), "along it");
  } else {
    verif::check(refused([&] { two.getPoint(s); }) and refused([&] { two.getTangentVector(s); }) and refused([&] { two.getNormalVector(s); }), "nothing beyond its ends");
  }
}

VERIF_HARNESS(trajectory, "real,with=curves|places,bounded=two or three control points and four points of a trajectory")
{
  const auto points = any_chain(static_cast<std::size_t>(verif::any_in("points", 2, 3)));
  const CatmullRomSpline c(points);
  const auto a = any_place(c), b = any_place(c);
  auto step = component("step");
  verif::check(refused([&] { c.getTrajectory(a, b, 0, 0); }) and refused([&] { c.getTrajectoryPoses(a, b, 0); }), "a step of no length is refused");
  verif::assume(std::abs(step) > 1e-6 and std::abs(a - b) < 3 * std::abs(step));
  const auto poses = c.getTrajectoryPoses(a, b, step);
  std::vector<double> places;
  for (int i = 0; i < 3 and i * std::abs(step) < std::abs(a - b); ++i) places.push_back(a < b ? a + i * std::abs(step) : a - i * std::abs(step));
  places.push_back(b);
  if (verif::native()) verif::assume(std::abs(std::remainder(a - b, step)) > 1e-3 * std::abs(step));
  verif::check(poses.size() == places.size(), "a trajectory of poses advances by the step and ends at the end");
  for (std::size_t i = 0; i < poses.size() and i < places.size(); ++i) {
    const auto p = c.getPose(places[i]);
    verif::check(close(poses[i].position, p.position), "each of them is on the spline");
  }
}

VERIF_HARNESS(trajectory_with_offset, "real,with=curves|places,bounded=two or three control points and four points of a trajectory")
{
  const auto points = any_chain(static_cast<std::size_t>(verif::any_in("points", 2, 3)));
  const CatmullRomSpline c(points);
  const auto a = any_place(c), b = any_place(c);
  auto step = component("step");
  verif::assume(std::abs(step) > 1e-6 and std::abs(a - b) < 3 * std::abs(step));
  const auto d = component("offset");
  const auto ps = c.getTrajectory(a, b, step, d);
  std::vector<double> places;
  for (int i = 0; i < 3 and i * std::abs(step) < std::abs(a - b); ++i) places.push_back(a < b ? a + i * std::abs(step) : a - i * std::abs(step));
  places.push_back(b);
  if (verif::native()) verif::assume(std::abs(std::remainder(a - b, step)) > 1e-3 * std::abs(step));
  verif::check(ps.size() == places.size(), "a trajectory advances by the step and ends at the end");
  for (std::size_t i = 0; i < ps.size() and i < places.size(); ++i) {
    const auto q = c.getPoint(places[i], d);
    verif::check(close(ps[i], q), "each point has the offset");
  }
}

VERIF_HARNESS(altitudes, "real,with=curves,bounded=up to three control points")
{
  const auto points = any_chain(static_cast<std::size_t>(verif::any_in("points", 1, 3)));
  const auto n = points.size();
  const auto c = std::make_shared<CatmullRomSpline>(points);
  const auto [low, high] = c->getAltitudeRange();
  bool l = false, h = false;
  for (const auto & p : points) {
    verif::check(low <= p.z and p.z <= high, "no control point is lower or higher");
    l = l or p.z == low, h = h or p.z == high;
  }
  verif::check(l and h, "one is as low and one as high");
  // a part of it
  const auto a = component("begin"), b = component("end");
  verif::assume(0 <= a and a <= b and b <= c->getLength() and n > 1);
  const CatmullRomSubspline part(c, a, b);
  verif::check(close(part.getLength(), b - a), "a part is as long as the way from its begin to its end");
  const auto [from, to] = part.getAltitudeRange();
  bool any = false;
  for (std::size_t i = 0; i < n; ++i) {
    const auto s = begin_of(*c, i);
    if (a <= s and s <= b) any = true, verif::check(from <= points[i].z and points[i].z <= to, "no control point of the part is lower or higher");
  }
  const auto z = component("altitude");
  verif::assume(std::abs(z) < 1e300);
  if (any) verif::check(low <= from and to <= high, "within the range of all of it");
  else verif::check(from <= z and z <= to, "a part without control points has an unlimited range");
}

namespace
{
#ifndef VERIF_NATIVE
// a spline whose curves are told apart by a coefficient; all else of them is in their contracts
CatmullRomSpline any_spline(std::size_t n)
{
  CatmullRomSpline c(any_chain(3));
  crossings.clear(), c.curves_.clear(), c.length_list_.clear(), c.total_length_ = 0;
  absolute_asked = closed_asked = true;
  for (std::size_t i = 0; i < n; ++i) {
    c.curves_.emplace_back(0, 0, 1, 0, 0, 0, 0, 0, static_cast<double>(i), 0, 0, 0);
    const auto l = c.curves_.back().getLength();
    c.length_list_.push_back(l), c.total_length_ += l;
    std::vector<double> s;
    for (int k = verif::any_in("crossings", 0, i == 1 ? 2 : 1); k > 0; --k) {
      s.push_back(verif::any_real("crossing"));
      verif::assume(0 <= s.back() and s.back() <= l and (s.size() < 2 or s[0] < s[1]));
    }
    crossings.push_back(s);
  }
  return c;
}
#endif
}  // namespace

VERIF_HARNESS(crossings_with_polygons, "real,with=curves|crossings,bounded=up to three curves with up to two crossings each")
{
#ifdef VERIF_NATIVE
  // chains of points against a square, by where the chain enters and leaves it
  const auto points = any_chain(static_cast<std::size_t>(verif::any_in("points", 2, 5)));
  const CatmullRomSpline c(points);
  const auto w = std::abs(component("width")) + 0.1;
  const auto m = any_vector();
  std::vector<Point> square(4);
  for (int i = 0; i < 4; ++i) square[i].x = m.x + (i == 0 or i == 3 ? -w : w), square[i].y = m.y + (i < 2 ? -w : w);
  const auto found = c.getCollisionPointsIn2D(square, false);
  for (const auto s : found) {
    verif::check(-1e-6 <= s and s <= c.getLength() + 1e-6, "a crossing is on the spline");
    const auto p = c.getPoint(std::clamp(s, 0., c.getLength()));
    verif::check(std::abs(std::max(std::abs(p.x - m.x), std::abs(p.y - m.y)) - w) < 1e-2 * (1 + w), "and on the polygon");
  }
  const auto one = c.getCollisionPointIn2D(square, false), last = c.getCollisionPointIn2D(square, true);
  verif::check(one.has_value() == not found.empty() and last.has_value() == one.has_value(), "a crossing is given if there is one");
  if (one) verif::check(std::abs(*one - *found.begin()) < 1e-6 and std::abs(*last - *found.rbegin()) < 1e-6, "the first one, or the last one searching backwards");
#else
  const auto c = any_spline(static_cast<std::size_t>(verif::any_in("curves", 2, 3)));
  const auto n = c.getLengths().size();
  const std::vector<Point> polygon(3);
  const bool backward = verif::any<bool>("backward"), limited = verif::any<bool>("limited");
  const auto from = verif::any_real("from"), to = verif::any_real("to");
  std::optional<std::pair<double, double>> range;
  if (limited) range = std::make_pair(from, to);
  const auto found = c.getCollisionPointsIn2D(polygon, backward, range);
  std::set<double> all;
  for (std::size_t i = 0; i < n; ++i)
    for (const auto s : crossings[i]) all.insert(begin_of(c, i) + s);
  verif::check(absolute_asked and closed_asked, "crossings with the closed polygon, as distances along each curve");
  for (const auto s : found) verif::check(all.count(s) == 1, "nothing but crossings");
  for (const auto s : all) verif::check(found.count(s) == 1 or (limited and (s <= from or s > to)), "every crossing in the range");
  const auto one = c.getCollisionPointIn2D(polygon, backward, range);
  verif::check(one.has_value() == not found.empty() and (not one or *one == (backward ? *found.rbegin() : *found.begin())), "the first one, or the last one searching backwards");
#endif
}

VERIF_HARNESS(crossings_with_segments, "real,with=curves|crossings,bounded=up to three curves with up to two crossings each")
{
#ifdef VERIF_NATIVE
  const auto points = any_chain(static_cast<std::size_t>(verif::any_in("points", 3, 5)));
  const CatmullRomSpline c(points);
  const auto a = any_vector(), b = any_vector();
  verif::assume(std::abs(a.x - b.x) > 0.1 and std::abs(a.y - b.y) > 0.1);
  const auto first = c.getCollisionPointIn2D(a, b, false), last = c.getCollisionPointIn2D(a, b, true);
  verif::check(first.has_value() == last.has_value(), "found in both directions");
  if (first) {
    verif::check(-1e-6 <= *first and *first <= *last + 1e-6 and *last <= c.getLength() + 1e-6, "the first one, or the last one searching backwards");
    const auto p = c.getPoint(std::max(*first, 0.));
    verif::check(std::abs((b.x - a.x) * (p.y - a.y) - (b.y - a.y) * (p.x - a.x)) < 1e-2 * (1 + std::pow(std::hypot(b.x - a.x, b.y - a.y), 2)), "on the segment");
  }
#else
  const auto c = any_spline(static_cast<std::size_t>(verif::any_in("curves", 2, 3)));
  const auto n = c.getLengths().size();
  const bool backward = verif::any<bool>("backward");
  std::set<double> all;
  for (std::size_t i = 0; i < n; ++i)
    for (const auto s : crossings[i]) all.insert(begin_of(c, i) + s);
  const auto one = c.getCollisionPointIn2D(any_vector(), any_vector(), backward);
  verif::check(one.has_value() == not all.empty(), "a crossing is given if there is one");
  if (one) verif::check(*one == (backward ? *all.rbegin() : *all.begin()), "the first one, or the last one searching backwards");
#endif
}

VERIF_HARNESS(places_of_poses, "real,with=curves|crossings,bounded=up to three curves")
{
#ifdef VERIF_NATIVE
  // a pose on the spline is found where it is, or where the spline passes it before
  const auto points = any_chain(static_cast<std::size_t>(verif::any_in("points", 2, 5)));
  const CatmullRomSpline c(points);
  const auto s = any_place(c);
  verif::assume(s > 0.01 * c.getLength() and s < 0.99 * c.getLength());
  const auto t = c.getTangentVector(s);
  verif::assume(std::hypot(t.x, t.y) > 0.1);
  const auto found = c.getSValue(c.getPose(s), 1);
  verif::check(not found or (-1e-6 <= *found and *found <= s + 1e-2 * c.getLength()), "the first place at which the spline crosses the way to the left and right of the pose");
#else
  const auto c = any_spline(static_cast<std::size_t>(verif::any_in("curves", 2, 3)));
  const auto n = c.getLengths().size();
  places.clear();
  std::optional<double> expected;
  for (std::size_t i = 0; i < n; ++i) {
    std::optional<double> o;
    if (verif::any<bool>("found")) o = verif::any_real("place");
    if (o and not expected) expected = begin_of(c, i) + *o;
    places.push_back(o);
  }
  const auto found = c.getSValue(Pose(), verif::any_real("width"));
  verif::check(found.has_value() == expected.has_value() and absolute_asked, "a pose has a place on a spline when it has one on one of its curves");
  if (found) verif::check(*found == *expected, "that on the first of them");
#endif
}

VERIF_HARNESS(greatest_curvature, "real,with=curves|crossings,bounded=up to three curves")
{
#ifdef VERIF_NATIVE
  const auto points = any_chain(static_cast<std::size_t>(verif::any_in("points", 3, 5)));
  const CatmullRomSpline c(points);
  for (const auto & curve : c.curves_)
    for (double s = 0; s <= 1; s += 0.01) {
      const auto t = curve.getTangentVector(s, false);
      verif::assume(std::hypot(t.x, t.y) > 0.1);
    }
  const auto k = c.getMaximum2DCurvature();
  bool reached = false, known = true;
  for (const auto & curve : c.curves_) {
    const auto m = curve.getMaximum2DCurvature();
    known = known and std::isfinite(m);
    reached = reached or m == k;
    verif::check(not known or std::abs(m) <= std::abs(k), "no curve has a greater one");
  }
  verif::check(not known or reached, "it is that of a curve");
  verif::check(not known or c.getMaximum2DCurvature() == k, "each time");
#else
  const auto c = any_spline(static_cast<std::size_t>(verif::any_in("curves", 2, 3)));
  bends.clear();
  for (std::size_t i = 0; i < c.getLengths().size(); ++i) bends.push_back(verif::any_real("curvature"));
  const auto k = c.getMaximum2DCurvature();
  bool reached = false;
  for (const auto m : bends) {
    verif::check(std::abs(m) <= std::abs(k), "no curve has a greater one");
    reached = reached or m == k;
  }
  verif::check(reached, "it is that of a curve");
  verif::check(c.getMaximum2DCurvature() == k, "each time");
  verif::check(refused([] { Point p, q; q.x = 1; CatmullRomSpline({p, q}).getMaximum2DCurvature(); }), "a spline without curves has none");
#endif
}

VERIF_HARNESS(parts, "real,with=curves|parts,bounded=up to three crossings")
{
  const auto c = std::make_shared<CatmullRomSpline>(any_chain(3));
  const auto a = component("begin"), b = component("end");
  const bool backward = verif::any<bool>("backward");
  std::vector<Point> polygon(4);
  std::set<double> all;
#ifdef VERIF_NATIVE
  for (auto & p : polygon) p = any_vector();
  for (std::size_t i = 0; i < 4; ++i) verif::assume(std::abs(polygon[i].x - polygon[(i + 1) % 4].x) > 0.1 and std::abs(polygon[i].y - polygon[(i + 1) % 4].y) > 0.1);
  all = c->getCollisionPointsIn2D(polygon, backward);
#else
  all_crossings.clear();
  double previous = 0;
  for (int i = verif::any_in("crossings", 0, 3); i > 0; --i) {
    const auto s = verif::any_real("crossing");
    verif::assume(previous < s and s < c->getLength());
    all_crossings.insert(previous = s);
  }
  all = all_crossings;
#endif
  const CatmullRomSubspline part(c, a, b);
  if (a > b) {
    verif::check(refused([&] { part.getCollisionPointIn2D(polygon, backward); }), "a part that ends before it begins is refused");
  } else {
    std::optional<double> first, last;
    for (const auto s : all)
      if (a <= s and s <= b) {
        if (not first) first = s - a;
        last = s - a;
      }
    const auto found = part.getCollisionPointIn2D(polygon, backward);
    verif::check(found.has_value() == first.has_value(), "a part crosses where the spline crosses within the part");
    if (found and first) verif::check(close(*found, backward ? *last : *first), "the distance from its begin to the first crossing, or the last one searching backwards");
    const auto s = component("s"), low = component("low"), high = component("high");
#ifndef VERIF_NATIVE
    part.getCollisionPointIn2D(polygon, backward, std::make_pair(low, high));
    verif::check(range_asked and range_asked->first == low + a and range_asked->second == high + a, "a range counts from its begin");
#endif
    const auto o = any_vector();
    verif::check(close(part.getSquaredDistanceIn2D(o, s), c->getSquaredDistanceIn2D(o, a + s)), "distances are those at the places of the spline");
  }
}

VERIF_HARNESS(polygons, "real,with=curves|bands,bounded=two or three control points and up to two parts")
{
#ifndef VERIF_NATIVE
  across = any_vector<Vector>();
#endif
  CatmullRomSpline c(any_chain(static_cast<std::size_t>(verif::any_in("points", 2, 3))));
  const auto n = static_cast<std::size_t>(verif::any_in("parts", 0, 2));
  const auto w = component("width"), up = component("up");
  const auto found = c.getPolygon(w, n, up);
  verif::check(found.size() == 6 * n, "two triangles for each part");
  for (std::size_t i = 0; i <= n and n > 0 and found.size() == 6 * n; ++i) {
    // the corners at the i-th of equally spaced places; which of them come first is not said
    const auto & r = i < n ? found[6 * i] : found[6 * i - 1];
    const auto & l = i < n ? found[6 * i + 1] : found[6 * i - 2];
    const auto m = c.getPoint(c.getLength() / static_cast<double>(n) * static_cast<double>(i));
    verif::check(close((r.x + l.x) / 2, m.x) and close((r.y + l.y) / 2, m.y) and close(r.z, m.z + up) and close(l.z, m.z + up), "the spline runs in the middle");
    verif::check(close((r.x - l.x) * (r.x - l.x) + (r.y - l.y) * (r.y - l.y), w * w), "it is as wide as asked for");
  }
}

VERIF_HARNESS(along_vertices, "real,with=curves,bounded=up to three vertices")
{
  using Trajectory = traffic_simulator_msgs::msg::PolylineTrajectory;
  verif::check(refused([] { CatmullRomSpline(Point(), std::shared_ptr<Trajectory>()); }), "no trajectory makes no spline");
  const auto trajectory = std::make_shared<Trajectory>();
  trajectory->closed = verif::any<bool>("closed");
  const auto points = any_chain(static_cast<std::size_t>(verif::any_in("points", 1, 4)));
  auto expected = points;
  for (std::size_t i = 1; i < points.size(); ++i) {
    trajectory->shape.vertices.emplace_back();
    trajectory->shape.vertices.back().time = component("time"), trajectory->shape.vertices.back().position.position = points[i];
  }
  if (trajectory->closed) {
    const auto & last = points.back();
    if (points.size() > 1) verif::assume(verif::native() ? std::hypot(last.x - points[0].x, last.y - points[0].y) > 0.1 : last.x != points[0].x or last.y != points[0].y or last.z != points[0].z), expected.push_back(points[0]);
  }
  const CatmullRomSpline c(points[0], trajectory);
  verif::check(c.control_points.size() == expected.size(), "the start and each vertex, and the start again when closed, are control points");
  for (std::size_t i = 0; i < expected.size() and i < c.control_points.size(); ++i) verif::check(close(c.control_points[i], expected[i]), "in order");
}
