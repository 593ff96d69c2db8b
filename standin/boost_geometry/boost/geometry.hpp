// Verifier-side contracts of the parts of Boost.Geometry the verified code uses: points, rings and polygons with their
// documented arithmetic.  Whether two polygons have a point in common, how far they are apart, whether a point is in a
// polygon and what a convex hull is are oracles: the answer is arbitrary, and what was asked is recorded for the
// contracts.  (The native replay uses Boost.Geometry itself.)
#pragma once
#include <algorithm>
#include <cmath>
#include <cstddef>
#include <limits>
#include <vector>

namespace boost
{
namespace geometry
{
namespace model
{
namespace d2
{
template <typename T>
struct point_xy
{
  T x_, y_;
  point_xy() : x_(0), y_(0) {}
  point_xy(T x, T y) : x_(x), y_(y) {}
  T x() const { return x_; }
  T y() const { return y_; }
  void x(T v) { x_ = v; }
  void y(T v) { y_ = v; }
};
}  // namespace d2
template <typename P>
struct polygon
{
  std::vector<P> outer_;
  std::vector<P> & outer() { return outer_; }
  const std::vector<P> & outer() const { return outer_; }
};
}  // namespace model

template <std::size_t I, typename P>
auto get(const P & p)
{
  if constexpr (I == 0)
    return p.x();
  else
    return p.y();
}
template <typename P>
auto & exterior_ring(model::polygon<P> & p) { return p.outer_; }
template <typename P>
const auto & exterior_ring(const model::polygon<P> & p) { return p.outer_; }

template <typename P>
void add_point(P & a, const P & b) { a.x_ += b.x_, a.y_ += b.y_; }
template <typename P>
void subtract_point(P & a, const P & b) { a.x_ -= b.x_, a.y_ -= b.y_; }
template <typename P>
void multiply_value(P & a, double k) { a.x_ *= k, a.y_ *= k; }
template <typename P>
double dot_product(const P & a, const P & b) { return a.x_ * b.x_ + a.y_ * b.y_; }

using point_ = model::d2::point_xy<double>;
using polygon_ = model::polygon<point_>;
struct Oracle
{
  bool overlap = false;
  double apart = 0;
  bool inside = false;
  std::vector<polygon_> asked;  // the polygons of the questions
  std::vector<point_> points;
};
inline Oracle oracle;

inline double distance(const point_ & a, const point_ & b) { return std::hypot(a.x_ - b.x_, a.y_ - b.y_); }
inline void ask(const polygon_ & a, const polygon_ & b) { oracle.asked.push_back(a), oracle.asked.push_back(b); }
inline bool intersects(const polygon_ & a, const polygon_ & b) { ask(a, b); return oracle.overlap; }
inline bool disjoint(const polygon_ & a, const polygon_ & b) { ask(a, b); return not oracle.overlap; }
inline double distance(const polygon_ & a, const polygon_ & b) { ask(a, b); return oracle.overlap ? 0 : oracle.apart; }
inline bool within(const point_ & p, const polygon_ & a) { oracle.points.push_back(p), oracle.asked.push_back(a); return oracle.inside; }
inline void convex_hull(const polygon_ & a, polygon_ & hull) { hull.outer_ = a.outer_; }

struct segment_
{
  const point_ * first;
  const point_ * second;
};
struct segment_iterator_
{
  const polygon_ * polygon;
  std::size_t i;
  segment_ operator*() const { return segment_{&polygon->outer_[i], &polygon->outer_[i + 1]}; }
  segment_iterator_ & operator++() { ++i; return *this; }
  bool operator!=(const segment_iterator_ & o) const { return i != o.i; }
  bool operator==(const segment_iterator_ & o) const { return i == o.i; }
};
inline segment_iterator_ segments_begin(const polygon_ & p) { return segment_iterator_{&p, 0}; }
inline segment_iterator_ segments_end(const polygon_ & p) { return segment_iterator_{&p, p.outer_.empty() ? 0 : p.outer_.size() - 1}; }
}  // namespace geometry
template <typename I>
struct iterator_range_
{
  I b, e;
  I begin() const { return b; }
  I end() const { return e; }
};
template <typename I>
iterator_range_<I> make_iterator_range(I b, I e) { return iterator_range_<I>{b, e}; }
template <typename R>
auto begin(R & r) { return r.begin(); }
template <typename R>
auto end(R & r) { return r.end(); }
}  // namespace boost
