// Contracts of common/math/geometry: transforms, distances, planes, line segments and their intersections.
#include <verif.hpp>

#include <algorithm>
#include <cmath>
#include <limits>
#include <optional>
#include <vector>
#ifndef VERIF_PUBLIC_ONLY
#define private public  // contracts speak about LineSegment::denormalize
#endif
#include <geometry/polygon/line_segment.hpp>
#undef private
#include <geometry/plane.hpp>
#include <common/math/geometry/src/intersection/intersection.cpp>
#include <common/math/geometry/src/plane.cpp>
#include <common/math/geometry/src/polygon/line_segment.cpp>
#include <common/math/geometry/src/transform.cpp>

using namespace math::geometry;
using Vector = geometry_msgs::msg::Vector3;
using Point = geometry_msgs::msg::Point;
using Pose = geometry_msgs::msg::Pose;
using Quaternion = geometry_msgs::msg::Quaternion;

namespace
{
constexpr double epsilon = std::numeric_limits<double>::epsilon();

// every real; natively of moderate size, and whole numbers in half of the runs, so that segments touch and are parallel
double component(const char * name, bool whole = false)
{
  const auto c = verif::any_real(name);
  if (not verif::native()) return c;
  if (whole) return std::round(std::fmod(c, 4));
  return std::abs(c) > 100 ? std::fmod(c, 100) : c;
}
bool grid() { return verif::native() and verif::any<bool>("whole numbers"); }
Point any_point(bool whole = false)
{
  Point p;
  p.x = component("x", whole), p.y = component("y", whole), p.z = component("z", whole);
  return p;
}
Quaternion any_unit()
{
  Quaternion q;
  q.x = component("qx"), q.y = component("qy"), q.z = component("qz"), q.w = component("qw");
  const auto n = q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w;
  if (verif::native()) {
    verif::assume(n > 1e-3);
    q.x /= std::sqrt(n), q.y /= std::sqrt(n), q.z /= std::sqrt(n), q.w /= std::sqrt(n);
  } else {
    verif::assume(n == 1);
  }
  return q;
}
Pose any_pose()
{
  Pose p;
  p.position = any_point();
  p.orientation = any_unit();
  return p;
}
Quaternion product(const Quaternion & a, const Quaternion & b)
{
  Quaternion r;
  r.w = a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z;
  r.x = a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y;
  r.y = a.w * b.y + a.y * b.w + a.z * b.x - a.x * b.z;
  r.z = a.w * b.z + a.z * b.w + a.x * b.y - a.y * b.x;
  return r;
}
Quaternion conjugate(const Quaternion & q)
{
  Quaternion r;
  r.w = q.w, r.x = -q.x, r.y = -q.y, r.z = -q.z;
  return r;
}
// q v q*
Point turned(const Quaternion & q, const Point & v)
{
  Quaternion p;
  p.x = v.x, p.y = v.y, p.z = v.z, p.w = 0;
  const auto r = product(product(q, p), conjugate(q));
  Point t;
  t.x = r.x, t.y = r.y, t.z = r.z;
  return t;
}
void equal(const Point & a, double x, double y, double z, const char * label)
{
  verif::check(verif::near(a.x, x), label);
  verif::check(verif::near(a.y, y), label);
  verif::check(verif::near(a.z, z), label);
}
}  // namespace

VERIF_HARNESS(transform_point, "real")
{
  const auto pose = any_pose();
  const auto point = any_point();
  const auto r = turned(pose.orientation, point);
  const auto t = transformPoint(pose, point);
  equal(t, r.x + pose.position.x, r.y + pose.position.y, r.z + pose.position.z, "turned by the orientation, then moved by the position");
  const auto ts = transformPoints(pose, {point, pose.position});
  const auto r2 = turned(pose.orientation, pose.position);
  verif::check(ts.size() == 2, "one point for each");
  equal(ts[0], r.x + pose.position.x, r.y + pose.position.y, r.z + pose.position.z, "every point is transformed, in order");
  equal(ts[1], r2.x + pose.position.x, r2.y + pose.position.y, r2.z + pose.position.z, "every point is transformed, in order");
}

// in the frame of a sensor: transforming the result by the sensor's pose gives the point in the world
VERIF_HARNESS(transform_point_to_sensor, "real")
{
  const auto pose = any_pose(), sensor = any_pose();
  const auto point = any_point();
  const auto world = transformPoint(pose, point);
  const auto t = transformPoint(pose, sensor, point);
  const auto back = turned(sensor.orientation, t);
  equal(back, world.x - sensor.position.x, world.y - sensor.position.y, world.z - sensor.position.z, "seen from the sensor, at the place the point has in the world");
  const auto ts = transformPoints(pose, sensor, {point});
  verif::check(ts.size() == 1, "one point for each");
  equal(ts[0], t.x, t.y, t.z, "every point is transformed");
}

VERIF_HARNESS(relative_pose, "real")
{
  const auto from = any_pose(), to = any_pose();
  const auto r = getRelativePose(from, to);
  const auto p = turned(from.orientation, r.position);
  equal(p, to.position.x - from.position.x, to.position.y - from.position.y, to.position.z - from.position.z, "leads from the first position to the second, in the frame of the first");
  const auto q = product(from.orientation, r.orientation);
  const auto same = q.x * to.orientation.x + q.y * to.orientation.y + q.z * to.orientation.z + q.w * to.orientation.w;
  verif::check(verif::near(same * same, 1), "turns the first orientation into the second");
}

VERIF_HARNESS(planes, "real")
{
  const auto point = any_point(), other = any_point();
  Vector normal;
  normal.x = component("nx"), normal.y = component("ny"), normal.z = component("nz");
  try {
    const Plane plane(point, normal);
    verif::check(normal.x != 0 or normal.y != 0 or normal.z != 0, "a plane has a normal");
    verif::check(verif::near(plane.offset(other), normal.x * (other.x - point.x) + normal.y * (other.y - point.y) + normal.z * (other.z - point.z)), "the offset is the inner product of the normal and the way from the plane");
    verif::check(std::abs(plane.offset(point)) <= (verif::native() ? 1e-6 : 0), "the point given is on the plane");
    verif::cover("plane");
  } catch (const common::SimulationError &) {
    verif::check(normal.x == 0 and normal.y == 0 and normal.z == 0, "only a zero normal is rejected");
    verif::cover("rejected");
  }
}

VERIF_HARNESS(planes_not_a_number, "cover=rejected")
{
  Point point;
  point.x = verif::any<double>("x"), point.y = verif::any<double>("y"), point.z = verif::any<double>("z");
  Vector normal;
  normal.x = 1;
  bool accepted = true;
  try {
    const Plane plane(point, normal);
  } catch (const common::SimulationError &) {
    accepted = false;
    verif::cover("rejected");
  }
  verif::check(accepted == (point.x == point.x and point.y == point.y and point.z == point.z), "a plane goes through a point with coordinates that are numbers");
}

VERIF_HARNESS(segment, "real")
{
  const auto a = any_point(), b = any_point();
  const LineSegment l(a, b);
  equal(l.start_point, a.x, a.y, a.z, "starts at the first point");
  equal(l.end_point, b.x, b.y, b.z, "ends at the second point");
  verif::check(verif::near(l.vector.x, b.x - a.x) and verif::near(l.vector.y, b.y - a.y) and verif::near(l.vector.z, b.z - a.z), "its vector leads from the start to the end");
  verif::check(verif::near(l.vector_2d.x, b.x - a.x) and verif::near(l.vector_2d.y, b.y - a.y) and l.vector_2d.z == 0, "its plane vector is without height");
  verif::check(l.length >= 0 and verif::near(l.length * l.length, (b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y) + (b.z - a.z) * (b.z - a.z)), "its length is the distance of the points");
  verif::check(l.length_2d >= 0 and verif::near(l.length_2d * l.length_2d, (b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y)), "its plane length is their distance without height");
  if (not verif::native()) verif::assume(std::cos(M_PI / 2.0) == 0 and std::sin(M_PI / 2.0) == 1);  // taken as exact: M_PI as the number pi
  const auto n = l.getNormalVector();
  verif::check(std::abs(n.x + l.vector.y) <= 1e-6 and std::abs(n.y - l.vector.x) <= 1e-6 and n.z == 0, "the normal is the vector turned left by a right angle");
  try {
    const auto slope = l.get2DVectorSlope();
    verif::check(std::abs(b.x - a.x) > epsilon and verif::near(slope * (b.x - a.x), b.y - a.y), "the slope is rise over run");
    verif::cover("sloped");
  } catch (const common::SimulationError &) {
    verif::check(std::abs(b.x - a.x) <= epsilon, "only an upright segment has no slope");
    verif::cover("upright");
  }
}

VERIF_HARNESS(segment_from_vector, "real")
{
  const auto a = any_point();
  Vector v;
  v.x = component("vx", grid()), v.y = component("vy", grid()), v.z = component("vz");
  const auto length = component("length");
  try {
    const LineSegment l(a, v, length);
    verif::check(v.x != 0 or v.y != 0, "a direction is not upright");
    const auto n = std::hypot(v.x, v.y);
    equal(l.start_point, a.x, a.y, a.z, "starts at the point");
    equal(l.end_point, a.x + v.x / n * length, a.y + v.y / n * length, a.z + v.z / n * length, "goes the length, measured in the plane, into the direction");
    verif::cover("directed");
  } catch (const common::SimulationError &) {
    verif::check(v.x == 0 and v.y == 0, "only an upright direction is rejected");
    verif::cover("upright");
  }
}

VERIF_HARNESS(point_on_segment, "real")
{
  const auto a = any_point(), b = any_point(), p = any_point();
  const LineSegment l(a, b);
  const auto s = verif::any_real("s");
  const bool absolute = verif::any<bool>("absolute");
  if (absolute) verif::assume(l.length > 0 and (not verif::native() or l.length > 1e-3));
  const auto t = absolute ? s / l.length : s;
  try {
    const auto q = l.getPoint(s, absolute);
    verif::check(0 <= t and t <= 1, "on the segment");
    equal(q, a.x + (b.x - a.x) * t, a.y + (b.y - a.y) * t, a.z + (b.z - a.z) * t, "at the part s of the way");
    const auto d = l.getSquaredDistanceIn2D(p, s, absolute);
    verif::check(verif::near(d, (p.x - q.x) * (p.x - q.x) + (p.y - q.y) * (p.y - q.y)), "squared plane distance to the point at s");
    const auto v = l.getSquaredDistanceVector(p, s, absolute);
    verif::check(verif::near(v.x, p.x - q.x) and verif::near(v.y, p.y - q.y) and verif::near(v.z, p.z - q.z), "way from the point at s");
    const auto pose = l.getPose(s, absolute, verif::any<bool>("pitch"));
    equal(pose.position, q.x, q.y, q.z, "the pose is at that point");
    verif::cover("inside");
  } catch (const common::SimulationError &) {
    verif::check(not(0 <= t and t <= 1), "only a place off the segment is rejected");
    verif::cover("outside");
  }
}

VERIF_HARNESS(segment_orientation, "real")
{
  const auto a = any_point(), b = any_point();
  const LineSegment l(a, b);
  const bool pitch = verif::any<bool>("pitch");
  const auto pose = l.getPose(0, false, pitch);
  Vector e;
  e.x = 0, e.y = pitch ? std::atan2(-(b.z - a.z), std::hypot(b.x - a.x, b.y - a.y)) : 0, e.z = std::atan2(b.y - a.y, b.x - a.x);
  const auto q = convertEulerAngleToQuaternion(e);
  verif::check(verif::near(pose.orientation.x, q.x) and verif::near(pose.orientation.y, q.y) and verif::near(pose.orientation.z, q.z) and verif::near(pose.orientation.w, q.w), "heads along the segment, without roll, and without pitch unless asked for");
}

#ifndef VERIF_PUBLIC_ONLY
VERIF_HARNESS(denormalize, "real")
{
  const auto a = any_point(), b = any_point();
  const LineSegment l(a, b);
  const auto s = verif::any_real("s");
  const bool given = verif::any<bool>("given"), strict = verif::any<bool>("strict"), in = 0 <= s and s <= 1;
  const auto argument = given ? std::make_optional(s) : std::nullopt;
  try {
    const auto r = l.denormalize(argument, strict);
    verif::check(not given or not strict or in, "a place off the segment is rejected");
    verif::check(r.has_value() == (given and in), "a place on the segment has a distance from its start");
    if (r) verif::check(verif::near(*r, s * l.length), "which is the part of the length");
  } catch (const common::SimulationError &) {
    verif::check(given and strict and not in, "only a place off the segment is rejected");
  }
}
#endif

// the side of a segment's line on which a point is: left is positive
VERIF_HARNESS(side_of_segment, "real")
{
  const bool whole = grid();
  const auto a = any_point(whole), b = any_point(whole), p = any_point(whole);
  const LineSegment l(a, b);
  const auto left = (b.x - a.x) * (p.y - a.y) - (b.y - a.y) * (p.x - a.x);
  verif::assume(left == 0 or std::abs(left) > (verif::native() ? 1e-6 : epsilon));
  if (not verif::native() or whole) verif::check(l.relativePointPosition2D(p) == (left < 0 ? 1 : left > 0 ? -1 : 0), "which side of the segment the point is on");
  verif::check(l.isInBounds2D(p) == ((a.x <= p.x or b.x <= p.x) and (p.x <= a.x or p.x <= b.x) and (a.y <= p.y or b.y <= p.y) and (p.y <= a.y or p.y <= b.y)), "bounds");
}

namespace
{
// twice the signed area of the triangle a, b, p
double area(const Point & a, const Point & b, const Point & p) { return (b.x - a.x) * (p.y - a.y) - (b.y - a.y) * (p.x - a.x); }
bool clear(double d) { return d == 0 or std::abs(d) > (verif::native() ? 1e-6 : epsilon); }
bool between(double a, double x, double b) { return (a <= x and x <= b) or (b <= x and x <= a); }
}  // namespace

// two segments meet exactly when they have a point in common: whenever they meet, one is given
VERIF_HARNESS(meeting_segments_share_a_point, "real")
{
  const bool whole = grid();
  const auto p0 = any_point(whole), q0 = any_point(whole), p1 = any_point(whole), q1 = any_point(whole);
  const LineSegment l0(p0, q0), l1(p1, q1);
  const auto a = area(p1, q1, p0), b = area(p1, q1, q0), c = area(p0, q0, p1), d = area(p0, q0, q1);
  verif::assume(clear(a) and clear(b) and clear(c) and clear(d));
  if (l0.isIntersect2D(l1)) {
    verif::check(isIntersect2D(l1, l0), "meeting does not depend on the order");
    if (a != b and c != d) {
      const auto t = a / (a - b), u = c / (c - d);
      verif::check(-1e-9 <= t and t <= 1 + 1e-9 and -1e-9 <= u and u <= 1 + 1e-9, "the common point is on both segments");
      verif::check(verif::near((p0.x + t * (q0.x - p0.x)) , (p1.x + u * (q1.x - p1.x))), "a common point: x");
      verif::check(verif::near((p0.y + t * (q0.y - p0.y)) , (p1.y + u * (q1.y - p1.y))), "a common point: y");
      verif::cover("crossing");
    } else {
      verif::check(a == 0 and b == 0 and c == 0 and d == 0, "parallel segments meet only on one line");
      verif::cover("on one line");
    }
  } else {
    verif::check(not isIntersect2D(l1, l0), "meeting does not depend on the order");
    verif::cover("apart");
  }
}

// ... and whenever they have a point in common, they meet
VERIF_HARNESS(segments_that_share_a_point_meet, "real")
{
  const bool whole = grid();
  const auto p0 = any_point(whole), q0 = any_point(whole), p1 = any_point(whole), q1 = any_point(whole);
  const LineSegment l0(p0, q0), l1(p1, q1);
  const auto a = area(p1, q1, p0), b = area(p1, q1, q0), c = area(p0, q0, p1), d = area(p0, q0, q1);
  verif::assume(clear(a) and clear(b) and clear(c) and clear(d));
  verif::assume(a != b and c != d);  // not parallel: the lines have one point in common, at t and u
  const auto t = a / (a - b), u = c / (c - d);
  const bool meet = l0.isIntersect2D(l1);
  if (0 <= t and t <= 1 and 0 <= u and u <= 1) verif::check(meet, "segments with a common point meet");
  if (meet) {
    const auto x = p0.x + t * (q0.x - p0.x), y = p0.y + t * (q0.y - p0.y);
    const auto det = (q0.y - p0.y) * (q1.x - p1.x) - (q1.y - p1.y) * (q0.x - p0.x);
    try {
      const auto r = l0.getIntersection2D(l1);
      verif::check(r.has_value(), "segments that meet have a point of intersection");
      verif::check(verif::near(r->x * det, x * det) and verif::near(r->y * det, y * det) and r->z == 0, "which is the common point");
      verif::cover("point");
    } catch (const common::SimulationError &) {
      verif::check(std::abs(det) <= epsilon, "only nearly parallel segments have none");
    }
  } else {
    verif::check(not getIntersection2D(l0, l1).has_value(), "segments that do not meet have no point of intersection");
    verif::cover("none");
  }
}

// on one line, segments meet when they overlap
VERIF_HARNESS(segments_on_one_line, "real")
{
  const bool whole = grid();
  const auto o = any_point(whole);
  const auto dx = component("dx", whole), dy = component("dy", whole);
  verif::assume(dx != 0 or dy != 0);
  const auto at = [&](double s) { Point p; p.x = o.x + s * dx, p.y = o.y + s * dy, p.z = 0; return p; };
  const auto a = component("a", whole), b = component("b", whole), c = component("c", whole), d = component("d", whole);
  verif::assume(not verif::native() or whole);
  const LineSegment l0(at(a), at(b)), l1(at(c), at(d));
  const bool overlap = between(a, c, b) or between(a, d, b) or between(c, a, d) or between(c, b, d);
  verif::check(l0.isIntersect2D(l1) == overlap, "segments on one line meet exactly when they overlap");
  if (overlap) {
    try {
      getIntersection2D(l0, l1);
      verif::fail("several common points are rejected");
    } catch (const common::SimulationError &) {
    }
    verif::cover("overlap");
  } else {
    verif::check(not getIntersection2D(l0, l1).has_value(), "no common point");
    verif::cover("apart");
  }
}

// the place of a point on a segment
VERIF_HARNESS(place_on_segment, "real")
{
  const bool whole = grid();
  const auto a = any_point(whole), b = any_point(whole), p = any_point(whole);
  const LineSegment l(a, b);
  verif::assume(l.length_2d > (verif::native() ? 0.5 : 0));
  const auto c = area(a, b, p), n = l.length_2d;
  verif::assume(c == 0 or std::abs(c) > n * (verif::native() ? 1e-6 : epsilon));
  const bool on = c == 0 and between(a.x, p.x, b.x) and between(a.y, p.y, b.y);
  verif::assume(not verif::native() or whole);
  verif::check(l.isIntersect2D(p) == on, "a point is on the segment, or it is not");
  const auto s = l.get2DIntersectionSValue(p), m = l.get2DIntersectionSValue(p, true);
  verif::check(s.has_value() == on and m.has_value() == on, "a point on the segment has a place on it");
  if (on) {
    verif::check(*s >= 0 and verif::near(*s * *s * n * n, (p.x - a.x) * (p.x - a.x) + (p.y - a.y) * (p.y - a.y)), "the part of the plane length");
    verif::check(verif::near(*m, *s * l.length), "as a distance, the same part of the length");
    verif::cover("on");
  } else {
    verif::cover("off");
  }
}

// chains of points
VERIF_HARNESS(segments_of_points, "real,bounded=up to four points")
{
  std::vector<Point> points;
  const auto n = verif::any_in("points", 0, 4);
  const bool whole = grid();
  for (int i = 0; i < n; ++i) points.push_back(any_point(whole));
  const bool close = verif::any<bool>("close");
  const auto segments = getLineSegments(points, close);
  std::size_t k = 0;
  const auto next = [&](const Point & from, const Point & to) {
    if (from.x == to.x and from.y == to.y and from.z == to.z) return;
    verif::check(k < segments.size(), "successive points that differ are joined");
    if (k < segments.size()) {
      const auto & l = segments[k++];
      verif::check(l.start_point.x == from.x and l.start_point.y == from.y and l.start_point.z == from.z and l.end_point.x == to.x and l.end_point.y == to.y and l.end_point.z == to.z, "in order");
    }
  };
  for (int i = 0; i + 1 < n; ++i) next(points[i], points[i + 1]);
  if (close and n > 1) next(points[n - 1], points[0]);
  verif::check(k == segments.size(), "and nothing else is");
}

// among several segments: each a side or a diagonal of a square, or a segment apart from it
VERIF_HARNESS(several_segments, "bounded=four segments from five,cover=meeting,cover=apart")
{
  const auto point = [](double x, double y) { Point p; p.x = x, p.y = y, p.z = 0; return p; };
  std::vector<LineSegment> ls;
  const auto add = [&](const char * name) {
    switch (verif::any_in(name, 0, 4)) {
      case 0: ls.emplace_back(point(0, 0), point(4, 0)); break;
      case 1: ls.emplace_back(point(0, 4), point(4, 4)); break;
      case 2: ls.emplace_back(point(0, 0), point(4, 4)); break;
      case 3: ls.emplace_back(point(0, 8), point(4, 6)); break;
      default: ls.emplace_back(point(3, 1), point(1, 3)); break;
    }
  };
  add("first"), add("second"), add("third"), add("fourth");
  bool any = false, several = false;
  std::vector<Point> common;
  for (std::size_t i = 0; i < 4; ++i)
    for (std::size_t j = 0; j < 4; ++j)
      if (i != j and isIntersect2D(ls[i], ls[j])) {
        any = true;
        try {
          common.push_back(getIntersection2D(ls[i], ls[j]).value());
        } catch (const common::SimulationError &) {
          several = true;
        }
      }
  verif::check(isIntersect2D(ls) == any, "some two of them meet");
  if (any)
    verif::cover("meeting");
  else
    verif::cover("apart");
  if (not several) {
    const auto found = getIntersection2D(ls);
    verif::check(found.size() == common.size(), "one point for each pair that meets");
    for (std::size_t i = 0; i < common.size(); ++i) verif::check(found[i].x == common[i].x and found[i].y == common[i].y, "their common point");
  }
}
