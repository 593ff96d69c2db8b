// Contracts of common/math/geometry: bounding boxes, distances, collisions and polygons.
#include <verif.hpp>

#include <algorithm>
#include <cmath>
#include <limits>
#include <optional>
#include <vector>
#include <geometry/bounding_box.hpp>
#include <common/math/geometry/src/bounding_box.cpp>
#include <common/math/geometry/src/distance.cpp>
#include <common/math/geometry/src/intersection/collision.cpp>
#include <common/math/geometry/src/polygon/polygon.cpp>
#include <common/math/geometry/src/transform.cpp>

using namespace math::geometry;
using Point = geometry_msgs::msg::Point;
using Pose = geometry_msgs::msg::Pose;
using Box = traffic_simulator_msgs::msg::BoundingBox;

namespace
{
double component(const char * name)
{
  const auto c = verif::any_real(name);
  return verif::native() and std::abs(c) > 100 ? std::fmod(c, 100) : c;
}
Point any_point()
{
  Point p;
  p.x = component("x"), p.y = component("y"), p.z = component("z");
  return p;
}
Pose any_pose()
{
  Pose p;
  p.position = any_point();
  auto & q = p.orientation;
  q.x = component("qx"), q.y = component("qy"), q.z = component("qz"), q.w = component("qw");
  if (verif::native()) {
    if (verif::any<bool>("level")) q.x = q.y = 0;
    const auto n = q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w;
    verif::assume(n > 1e-3 and std::abs(q.z * q.z + q.w * q.w - q.x * q.x - q.y * q.y) > 0.2 * n);  // not on its side: the outline has an area
    q.x /= std::sqrt(n), q.y /= std::sqrt(n), q.z /= std::sqrt(n), q.w /= std::sqrt(n);
  }
  return p;
}
// a box; natively of a size at which boxes near each other are likely
double extent(const char * name)
{
  const auto c = component(name);
  if (verif::native()) return std::abs(std::fmod(c, 20)) + 0.25;
  verif::assume(c >= 0);
  return c;
}
Box any_box()
{
  Box b;
  b.center.x = component("cx"), b.center.y = component("cy"), b.center.z = component("cz");
  if (verif::native()) b.center.x = std::fmod(b.center.x, 4), b.center.y = std::fmod(b.center.y, 4);
  b.dimensions.x = extent("dx"), b.dimensions.y = extent("dy"), b.dimensions.z = extent("dz");
  return b;
}
struct Corner { double x, y; };
// the corners of a box at a pose, in the plane: front left, rear left, rear right, front right, on the upper side
std::vector<Corner> corners(const Pose & pose, const Box & b)
{
  std::vector<Corner> r;
  const auto m = getRotationMatrix(pose.orientation);
  const auto add = [&](double sx, double sy) {
    const auto x = b.center.x + sx * 0.5 * b.dimensions.x, y = b.center.y + sy * 0.5 * b.dimensions.y, z = b.center.z + 0.5 * b.dimensions.z;
    r.push_back({m(0, 0) * x + m(0, 1) * y + m(0, 2) * z + pose.position.x, m(1, 0) * x + m(1, 1) * y + m(1, 2) * z + pose.position.y});
  };
  add(1, 1), add(-1, 1), add(-1, -1), add(1, -1);
  return r;
}
double near_on_segment(double x, double y, const Corner & a, const Corner & b)
{
  const auto vx = b.x - a.x, vy = b.y - a.y, n = vx * vx + vy * vy;
  const auto t = n > 0 ? std::min(1.0, std::max(0.0, ((x - a.x) * vx + (y - a.y) * vy) / n)) : 0;
  return std::sqrt(std::pow(x - a.x - t * vx, 2) + std::pow(y - a.y - t * vy, 2));
}
// the distance of the outlines
double apart(const std::vector<Corner> & a, const std::vector<Corner> & b)
{
  auto d = std::numeric_limits<double>::max();
  for (std::size_t i = 0; i < a.size(); ++i)
    for (std::size_t j = 0; j < b.size(); ++j)
      d = std::min({d, near_on_segment(a[i].x, a[i].y, b[j], b[(j + 1) % b.size()]), near_on_segment(b[j].x, b[j].y, a[i], a[(i + 1) % a.size()])});
  return d;
}
// how far a line along a side of one keeps two convex polygons apart: positive when one does
double gap(const std::vector<Corner> & a, const std::vector<Corner> & b)
{
  auto best = -std::numeric_limits<double>::max();
  const auto sides = [&](const std::vector<Corner> & p) {
    for (std::size_t i = 0; i < p.size(); ++i) {
      const auto & f = p[i];
      const auto & t = p[(i + 1) % p.size()];
      const auto nx = t.y - f.y, ny = f.x - t.x, n = std::sqrt(nx * nx + ny * ny);
      auto a0 = 1e300, a1 = -1e300, b0 = 1e300, b1 = -1e300;
      for (const auto & c : a) a0 = std::min(a0, (c.x * nx + c.y * ny) / n), a1 = std::max(a1, (c.x * nx + c.y * ny) / n);
      for (const auto & c : b) b0 = std::min(b0, (c.x * nx + c.y * ny) / n), b1 = std::max(b1, (c.x * nx + c.y * ny) / n);
      best = std::max({best, b0 - a1, a0 - b1});
    }
  };
  sides(a), sides(b);
  return best;
}
#ifndef VERIF_NATIVE
// the two polygons last asked about are the outlines of the two boxes
void asked_about(const Pose & p0, const Box & b0, const Pose & p1, const Box & b1)
{
  const auto & asked = boost::geometry::oracle.asked;
  verif::check(asked.size() >= 2, "the outlines are compared");
  const auto outline = [](const boost_polygon & p, const std::vector<Corner> & c) {
    bool equal = p.outer().size() == 5;
    for (std::size_t i = 0; equal and i < 5; ++i) equal = verif::near(p.outer()[i].x(), c[i % 4].x) and verif::near(p.outer()[i].y(), c[i % 4].y);
    return equal;
  };
  const auto c0 = corners(p0, b0), c1 = corners(p1, b1);
  for (std::size_t i = 0; i + 1 < asked.size(); i += 2)
    verif::check((outline(asked[i], c0) and outline(asked[i + 1], c1)) or (outline(asked[i], c1) and outline(asked[i + 1], c0)), "what is compared are the outlines of the boxes at their poses");
}
#endif
}  // namespace

VERIF_HARNESS(edges, "real")
{
  const auto b = any_box();
  const auto d = getDistancesFromCenterToEdge(b);
  verif::check(verif::near(d.front, b.center.x + b.dimensions.x / 2) and verif::near(d.rear, b.center.x - b.dimensions.x / 2), "front and rear");
  verif::check(verif::near(d.left, b.center.y + b.dimensions.y / 2) and verif::near(d.right, b.center.y - b.dimensions.y / 2), "left and right");
  verif::check(verif::near(d.up, b.center.z + b.dimensions.z / 2) and verif::near(d.down, b.center.z - b.dimensions.z / 2), "up and down");
}

VERIF_HARNESS(extended_corners, "real")
{
  const auto b = any_box();
  const auto right = component("right"), left = component("left"), front = component("front"), rear = component("rear");
  const auto ps = getPointsFromBbox(b, right, left, front, rear);
  const auto f = b.center.x + b.dimensions.x / 2 + front, r = b.center.x - b.dimensions.x / 2 - rear;
  const auto l = b.center.y + b.dimensions.y / 2 + left, g = b.center.y - b.dimensions.y / 2 - right, u = b.center.z + b.dimensions.z / 2;
  verif::check(ps.size() == 4, "four corners");
  const auto at = [&](std::size_t i, double x, double y) { return verif::near(ps[i].x, x) and verif::near(ps[i].y, y) and verif::near(ps[i].z, u); };
  verif::check(at(0, f, l) and at(1, r, l) and at(2, r, g) and at(3, f, g), "front left, rear left, rear right and front right of the upper side, each side moved outwards by its extension");
}

VERIF_HARNESS(outline, "real")
{
  const auto pose = any_pose();
  const auto box = any_box();
  const auto c = corners(pose, box);
  const auto p = toPolygon2D(pose, box);
  verif::check(p.outer().size() == 5, "a closed outline");
  for (std::size_t i = 0; i < 5; ++i) verif::check(verif::near(p.outer()[i].x(), c[i % 4].x) and verif::near(p.outer()[i].y(), c[i % 4].y), "through the corners of the box at the pose");
}

VERIF_HARNESS(own_outline, "real")
{
  const auto b = any_box();
  const auto ps = toPolygon2D(b);
  bool found[4] = {false, false, false, false};
  for (const auto & p : ps)
    for (int i = 0; i < 4; ++i)
      if (verif::near(p.x, b.center.x + (i & 1 ? 0.5 : -0.5) * b.dimensions.x) and verif::near(p.y, b.center.y + (i & 2 ? 0.5 : -0.5) * b.dimensions.y)) found[i] = true;
  verif::check(found[0] and found[1] and found[2] and found[3], "the convex hull goes through every corner");
}

VERIF_HARNESS(projection, "real")
{
  const boost_point p(component("x"), component("y")), a(component("ax"), component("ay")), b(component("bx"), component("by"));
  const auto r = pointToSegmentProjection(p, a, b);
  const auto vx = b.x() - a.x(), vy = b.y() - a.y();
  const auto c = (p.x() - a.x()) * vx + (p.y() - a.y()) * vy, n = vx * vx + vy * vy;
  if (c <= 0)
    verif::check(verif::near(r.x(), a.x()) and verif::near(r.y(), a.y()), "before the segment, its start is nearest");
  else if (c >= n)
    verif::check(verif::near(r.x(), b.x()) and verif::near(r.y(), b.y()), "behind the segment, its end is nearest");
  else
    verif::check(verif::near(r.x(), a.x() + vx * (c / n)) and verif::near(r.y(), a.y() + vy * (c / n)), "otherwise the foot of the perpendicular");
}

// boxes that overlap have no distance; of others, it is the distance of their outlines
VERIF_HARNESS(distance_of_boxes, "real")
{
  const auto p0 = any_pose(), p1 = any_pose();
  const auto b0 = any_box(), b1 = any_box();
#ifndef VERIF_NATIVE
  auto & oracle = boost::geometry::oracle;
  oracle.overlap = verif::any<bool>("overlap"), oracle.apart = verif::any_real("apart");
  const bool overlap = oracle.overlap;
  const auto distance = oracle.apart;
#else
  const auto c0 = corners(p0, b0), c1 = corners(p1, b1);
  const auto g = gap(c0, c1);
  verif::assume(std::abs(g) > 1e-6);
  const bool overlap = g < 0;
  const auto distance = apart(c0, c1);
#endif
  const auto d = getPolygonDistance(p0, b0, p1, b1);
  verif::check(d.has_value() == not overlap, "boxes that overlap have no distance");
  if (d) verif::check(std::abs(*d - distance) <= (verif::native() ? 1e-6 : 0), "the distance of the outlines");
#ifndef VERIF_NATIVE
  asked_about(p0, b0, p1, b1);
#endif
}

// boxes collide when they overlap in the plane and in height
VERIF_HARNESS(collision, "real")
{
  const auto p0 = any_pose();
  auto p1 = any_pose();
  const auto b0 = any_box(), b1 = any_box();
  if (verif::native() and verif::any<bool>("near")) p1.position.x = p0.position.x + std::fmod(p1.position.x, 8), p1.position.y = p0.position.y + std::fmod(p1.position.y, 8), p1.position.z = p0.position.z + std::fmod(p1.position.z, 8);
  const auto z0 = p0.position.z + b0.center.z, z1 = p1.position.z + b1.center.z;
  const auto height = std::min(z0 + b0.dimensions.z / 2 - (z1 - b1.dimensions.z / 2), z1 + b1.dimensions.z / 2 - (z0 - b0.dimensions.z / 2));
#ifndef VERIF_NATIVE
  boost::geometry::oracle.overlap = verif::any<bool>("overlap");
  const bool overlap = boost::geometry::oracle.overlap;
#else
  const auto g = gap(corners(p0, b0), corners(p1, b1));
  verif::assume(std::abs(g) > 1e-6 and std::abs(height) > 1e-6);
  const bool overlap = g < 0;
#endif
  verif::check(checkCollision2D(p0, b0, p1, b1) == (overlap and height >= 0), "boxes collide exactly when they overlap in the plane and in height");
#ifndef VERIF_NATIVE
  if (height >= 0) asked_about(p0, b0, p1, b1);
#endif
}

// the nearest points of two boxes apart from each other
VERIF_HARNESS(closest_poses, "real,native")
{
  const auto p0 = any_pose();
  auto p1 = any_pose();
  const auto b0 = any_box(), b1 = any_box();
  if (verif::any<bool>("near")) p1.position.x = p0.position.x + std::fmod(p1.position.x, 16), p1.position.y = p0.position.y + std::fmod(p1.position.y, 16);
  const auto c0 = corners(p0, b0), c1 = corners(p1, b1);
  const auto g = gap(c0, c1);
  verif::assume(std::abs(g) > 1e-6);
  const auto r = getClosestPoses(p0, b0, p1, b1);
  verif::check(r.has_value() == (g > 0), "boxes that overlap have none");
  if (r) {
    const auto & a = r->first.position;
    const auto & b = r->second.position;
    verif::check(std::abs(std::hypot(a.x - b.x, a.y - b.y) - apart(c0, c1)) < 1e-6, "they are as far apart as the outlines");
    const auto on = [](const Point & p, const std::vector<Corner> & c) {
      auto d = 1e300;
      for (std::size_t i = 0; i < c.size(); ++i) d = std::min(d, near_on_segment(p.x, p.y, c[i], c[(i + 1) % c.size()]));
      return d < 1e-6;
    };
    verif::check((on(a, c0) and on(b, c1)) or (on(a, c1) and on(b, c0)), "one on each outline");
  }
}

VERIF_HARNESS(closest_point, "real,bounded=a triangle")
{
  const boost_point q(component("x"), component("y"));
  verif::assume(std::abs(q.x()) < 1e6 and std::abs(q.y()) < 1e6);
  boost_polygon p;
  std::vector<Corner> c;
  for (int i = 0; i < 3; ++i) {
    const auto x = verif::native() ? component("px") : i == 1 ? 4.0 : 0.0, y = verif::native() ? component("py") : i == 2 ? 3.0 : 0.0;
    p.outer().push_back(boost_point(x, y));
    c.push_back({x, y});
  }
  const auto r = getClosestPointOnPolygon(q, p);
  const auto square = [&](const boost_point & a) { return (a.x() - q.x()) * (a.x() - q.x()) + (a.y() - q.y()) * (a.y() - q.y()); };
  bool one = false;
  for (std::size_t i = 0; i < 3; ++i) {
    const auto s = pointToSegmentProjection(q, p.outer()[i], p.outer()[(i + 1) % 3]);
    verif::check(verif::le(square(r), square(s)), "no point on a side is nearer");
    one = one or (s.x() == r.x() and s.y() == r.y());
  }
  verif::check(one, "it is a point on a side");
}

VERIF_HARNESS(distance_of_points, "real")
{
  Pose p, q;
  p.position = any_point(), q.position = any_point();
  const auto & a = p.position;
  const auto & b = q.position;
  const auto d = getDistance(a, b);
  verif::check(d >= 0 and verif::near(d * d, (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z)), "the distance of two points");
  verif::check(verif::near(getDistance(p, b), d) and verif::near(getDistance(a, q), d) and verif::near(getDistance(p, q), d), "of poses, that of their positions");
}

VERIF_HARNESS(polygons, "real,bounded=polygons of three and four corners")
{
  std::vector<Point> a, b;
  for (int i = 0; i < 3; ++i) a.push_back(any_point());
  for (int i = 0; i < 4; ++i) b.push_back(any_point());
  const auto p = any_point();
#ifndef VERIF_NATIVE
  auto & oracle = boost::geometry::oracle;
  oracle.inside = verif::any<bool>("inside"), oracle.overlap = verif::any<bool>("overlap"), oracle.apart = verif::any_real("apart");
  const auto same = [](const boost_polygon & p, const std::vector<Point> & c) {
    bool equal = p.outer().size() == c.size();
    for (std::size_t i = 0; equal and i < c.size(); ++i) equal = p.outer()[i].x() == c[i].x and p.outer()[i].y() == c[i].y;
    return equal;
  };
  verif::check(contains(a, p) == oracle.inside, "a polygon contains the points within it");
  verif::check(oracle.points.size() == 1 and oracle.points[0].x() == p.x and oracle.points[0].y() == p.y and same(oracle.asked[0], a), "asks about that polygon and that point");
  const auto d = getDistance2D(a, b);
  verif::check(verif::near(d, oracle.overlap ? 0 : oracle.apart), "the distance of two polygons");
  verif::check(oracle.asked.size() == 3 and same(oracle.asked[1], a) and same(oracle.asked[2], b), "asks about these polygons");
  const auto h = get2DConvexHull(b);
  verif::check(h.size() == 4, "the hull of the points");
  for (int i = 0; i < 4; ++i) verif::check(h[i].x == b[i].x and h[i].y == b[i].y and h[i].z == 0, "the hull of the points");
#endif
}

VERIF_HARNESS(extremes, "real,bounded=up to four points")
{
  std::vector<Point> ps;
  const auto n = verif::any_in("points", 0, 4);
  for (int i = 0; i < n; ++i) ps.push_back(any_point());
  const auto axis = static_cast<Axis>(verif::any_in("axis", 0, 2));
  const auto value = [&](const Point & p) { return axis == Axis::X ? p.x : axis == Axis::Y ? p.y : p.z; };
  const auto values = filterByAxis(ps, axis);
  verif::check(values.size() == ps.size(), "a value for each point");
  for (int i = 0; i < n; ++i) verif::check(values[i] == value(ps[i]), "its value on the axis");
  try {
    const auto max = getMaxValue(ps, axis), min = getMinValue(ps, axis);
    bool has_max = false, has_min = false;
    for (const auto & p : ps) {
      verif::check(min <= value(p) and value(p) <= max, "every value lies between");
      has_max = has_max or value(p) == max;
      has_min = has_min or value(p) == min;
    }
    verif::check(has_max and has_min, "both are values of points");
  } catch (const common::SimulationError &) {
    verif::check(n == 0, "only no points at all are rejected");
    verif::cover("none");
  }
}
