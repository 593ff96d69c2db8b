// Contracts of simple_sensor_simulator::GridTraversal.
// Path: P(t) = start + t (end - start), 0 <= t <= 1; cell (x, y) is [x, x+1] x [y, y+1].
#include <verif.hpp>

#include <cmath>
#include <cstdint>
#include <utility>
#ifndef VERIF_PUBLIC_ONLY
#define private public  // contracts speak about the representation
#endif
#include <simple_sensor_simulator/sensor_simulation/occupancy_grid/grid_traversal.hpp>
#undef private
#include <simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp>

using namespace simple_sensor_simulator;

namespace
{
double coordinate(const char * name)
{
  auto c = verif::any_real(name);
  verif::assume(c > -1000000.0 and c < 1000000.0);
  return c;
}
// the time an axis leaves cell C: P(t) reaches its far boundary
bool leaves(double start, double v, int c, double t)
{
  return verif::near(start + t * v, v > 0 ? c + 1.0 : c);
}
}  // namespace

#ifndef VERIF_PUBLIC_ONLY
// the first cell contains the start point, and the exit times are those of that cell
VERIF_HARNESS(grid_begin, "real")
{
  const auto sx = coordinate("start x"), sy = coordinate("start y"), ex = coordinate("end x"), ey = coordinate("end y");
  verif::assume(ex != sx and ey != sy);
  GridTraversal traversal(sx, sy, ex, ey);
  auto it = traversal.begin();
  const auto [x, y] = *it;
  verif::check(x <= sx and sx < x + 1, "the first cell contains the start point (x)");
  verif::check(y <= sy and sy < y + 1, "the first cell contains the start point (y)");
  verif::check(leaves(sx, ex - sx, x, it.tx_), "the x boundary of the first cell is reached at the exit time");
  verif::check(leaves(sy, ey - sy, y, it.ty_), "the y boundary of the first cell is reached at the exit time");
  verif::check(it.tx_ >= 0 and it.ty_ >= 0, "the path leaves the first cell after it starts");
}

// one step from any cell of the path: with grid_begin, the induction step of every traversal
VERIF_HARNESS(grid_step, "real")
{
  const auto sx = coordinate("start x"), sy = coordinate("start y"), ex = coordinate("end x"), ey = coordinate("end y");
  const auto vx = ex - sx, vy = ey - sy;
  verif::assume(vx != 0 and vy != 0);
  GridTraversal traversal(sx, sy, ex, ey);
  auto it = traversal.begin();
  const auto x = verif::any_in("x", -1000000, 1000000), y = verif::any_in("y", -1000000, 1000000);
  const auto tx = ((vx > 0 ? x + 1.0 : x) - sx) / vx, ty = ((vy > 0 ? y + 1.0 : y) - sy) / vy;
  verif::assume(tx >= 0 and ty >= 0);
  it.x_ = x;
  it.y_ = y;
  it.tx_ = tx;
  it.ty_ = ty;
  verif::check((it != traversal.end()) == (tx <= 1 or ty <= 1), "the traversal goes on while the path leaves the cell before its end");
  ++it;
  const auto [nx, ny] = *it;
  verif::check(nx == (tx < ty ? x + (vx > 0 ? 1 : -1) : x), "the next cell is the neighbour across the boundary reached first (x)");
  verif::check(ny == (tx < ty ? y : y + (vy > 0 ? 1 : -1)), "the next cell is the neighbour across the boundary reached first (y)");
  verif::check(verif::near(it.tx_, ((vx > 0 ? nx + 1.0 : nx) - sx) / vx), "the exit time in x is that of the new cell");
  verif::check(verif::near(it.ty_, ((vy > 0 ? ny + 1.0 : ny) - sy) / vy), "the exit time in y is that of the new cell");
  verif::check(verif::le(tx, it.tx_) and verif::le(ty, it.ty_), "time never goes back");
}

// the boundary point between two successive cells belongs to both
VERIF_HARNESS(grid_connected, "real")
{
  const auto sx = coordinate("start x"), sy = coordinate("start y"), ex = coordinate("end x"), ey = coordinate("end y");
  const auto vx = ex - sx, vy = ey - sy;
  verif::assume(vx != 0 and vy != 0);
  const auto x = verif::any_in("x", -1000000, 1000000), y = verif::any_in("y", -1000000, 1000000);
  const auto entered = verif::any_real("entered");
  // the path is inside cell (x, y) from the time it entered it until it leaves it
  const auto tx = ((vx > 0 ? x + 1.0 : x) - sx) / vx, ty = ((vy > 0 ? y + 1.0 : y) - sy) / vy;
  verif::assume(entered >= 0 and entered <= tx and entered <= ty);
  verif::assume(x <= sx + entered * vx and sx + entered * vx <= x + 1 and y <= sy + entered * vy and sy + entered * vy <= y + 1);
  GridTraversal traversal(sx, sy, ex, ey);
  auto it = traversal.begin();
  it.x_ = x;
  it.y_ = y;
  it.tx_ = tx;
  it.ty_ = ty;
  ++it;
  const auto [nx, ny] = *it;
  const auto t = tx < ty ? tx : ty;
  verif::check(verif::le(nx, sx + t * vx) and verif::le(sx + t * vx, nx + 1.0), "the path enters the new cell where it leaves the old one (x)");
  verif::check(verif::le(ny, sy + t * vy) and verif::le(sy + t * vy, ny + 1.0), "the path enters the new cell where it leaves the old one (y)");
  verif::check(verif::le(entered, t) and verif::le(t, it.tx_) and verif::le(t, it.ty_), "it enters the new cell before it leaves it");
}

// axis-parallel paths
VERIF_HARNESS(grid_vertical, "real")
{
  const auto sx = coordinate("x"), sy = coordinate("start y"), ey = coordinate("end y");
  verif::assume(sy != ey);
  GridTraversal traversal(sx, sy, sx, ey);
  auto it = traversal.begin();
  const auto [x, y] = *it;
  verif::check(x <= sx and sx < x + 1 and y <= sy and sy < y + 1, "the first cell contains the start point");
  verif::check(leaves(sy, ey - sy, y, it.ty_), "the boundary of the first cell is reached at the exit time");
  const auto steps = verif::any_in("cell", -1000000, 1000000);
  const auto t = ((ey > sy ? steps + 1.0 : steps) - sy) / (ey - sy);
  it.y_ = steps;
  it.ty_ = t;
  verif::check((it != traversal.end()) == (t <= 1), "the traversal goes on while the path leaves the cell before its end");
  ++it;
  const auto [nx, ny] = *it;
  verif::check(nx == x and ny == steps + (ey > sy ? 1 : -1), "a vertical path stays in its column");
  verif::check(leaves(sy, ey - sy, ny, it.ty_), "the exit time is that of the new cell");
}

VERIF_HARNESS(grid_horizontal, "real")
{
  const auto sy = coordinate("y"), sx = coordinate("start x"), ex = coordinate("end x");
  verif::assume(sx != ex);
  GridTraversal traversal(sx, sy, ex, sy);
  auto it = traversal.begin();
  const auto [x, y] = *it;
  verif::check(x <= sx and sx < x + 1 and y <= sy and sy < y + 1, "the first cell contains the start point");
  verif::check(leaves(sx, ex - sx, x, it.tx_), "the boundary of the first cell is reached at the exit time");
  const auto steps = verif::any_in("cell", -1000000, 1000000);
  const auto t = ((ex > sx ? steps + 1.0 : steps) - sx) / (ex - sx);
  it.x_ = steps;
  it.tx_ = t;
  verif::check((it != traversal.end()) == (t <= 1), "the traversal goes on while the path leaves the cell before its end");
  ++it;
  const auto [nx, ny] = *it;
  verif::check(ny == y and nx == steps + (ex > sx ? 1 : -1), "a horizontal path stays in its row");
  verif::check(leaves(sx, ex - sx, nx, it.tx_), "the exit time is that of the new cell");
}

#else
// the contracts above, for as much as the public interface shows, over paths of a few cells
VERIF_HARNESS(grid_public, "real,native")
{
  const auto sx = verif::any_real("start x"), sy = verif::any_real("start y"), ex = verif::any_real("end x"), ey = verif::any_real("end y");
  verif::assume(std::abs(sx) < 1000 and std::abs(sy) < 1000 and std::abs(ex - sx) < 4 and std::abs(ey - sy) < 4);
  GridTraversal traversal(sx, sy, ex, ey);
  auto first = true;
  int px = 0, py = 0, cells = 0;
  for (const auto [x, y] : traversal) {
    if (first) verif::check(x <= sx and sx < x + 1 and y <= sy and sy < y + 1, "the first cell contains the start point");
    else {
      verif::check((x == px) != (y == py), "the path crosses one boundary at a time");
      verif::check(x == px or x == px + (ex > sx ? 1 : -1), "the next cell is a neighbour (x)");
      verif::check(y == py or y == py + (ey > sy ? 1 : -1), "the next cell is a neighbour (y)");
    }
    // the path meets the cell
    auto lo = 0.0, hi = 1.0;
    if (ex != sx) lo = std::max(lo, std::min((x - sx) / (ex - sx), (x + 1 - sx) / (ex - sx))), hi = std::min(hi, std::max((x - sx) / (ex - sx), (x + 1 - sx) / (ex - sx)));
    else verif::check(x <= sx and sx < x + 1, "stays in its column");
    if (ey != sy) lo = std::max(lo, std::min((y - sy) / (ey - sy), (y + 1 - sy) / (ey - sy))), hi = std::min(hi, std::max((y - sy) / (ey - sy), (y + 1 - sy) / (ey - sy)));
    else verif::check(y <= sy and sy < y + 1, "stays in its row");
    verif::check(verif::le(lo, hi), "the path meets every cell visited");
    px = x, py = y, first = false;
    verif::check(++cells < 20, "terminates");
  }
  verif::check(cells == std::abs(std::floor(ex) - std::floor(sx)) + std::abs(std::floor(ey) - std::floor(sy)) or std::floor(ex) == ex or std::floor(ey) == ey or std::floor(sx) == sx or std::floor(sy) == sy, "visits every cell it leaves");
}
#endif

// a path within one point visits no cell
VERIF_HARNESS(grid_point, "real")
{
  const auto sx = coordinate("x"), sy = coordinate("y");
  GridTraversal traversal(sx, sy, sx, sy);
  verif::check(not(traversal.begin() != traversal.end()), "a path of no length visits no cell");
}
