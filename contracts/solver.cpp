// Contracts of math::geometry::PolynomialSolver.
#include <verif.hpp>

#include <algorithm>
#include <cmath>
#include <complex>
#include <limits>
#include <vector>
#ifndef VERIF_PUBLIC_ONLY
#define private public  // contracts speak about the helper functions
#endif
#include <geometry/solver/polynomial_solver.hpp>
#undef private
#include <common/math/geometry/src/solver/polynomial_solver.cpp>

using namespace math::geometry;

namespace
{
constexpr double tolerance = 1e-7;
bool zero(double v) { return std::abs(v) <= tolerance; }
double coefficient(const char * name)
{
  const auto c = verif::any_real(name);
  return verif::native() and std::abs(c) > 20 ? std::fmod(c, 20) : c;
}
bool contains(const std::vector<double> & v, double x, double slack = 0)
{
  for (const auto y : v)
    if (std::abs(x - y) <= slack) return true;
  return false;
}
}  // namespace

VERIF_HARNESS(polynomials, "real")
{
  const auto a = coefficient("a"), b = coefficient("b"), c = coefficient("c"), d = coefficient("d"), t = coefficient("t");
  PolynomialSolver s;
  verif::check(verif::near(s.linear(a, b, t), a * t + b), "linear function");
  verif::check(verif::near(s.quadratic(a, b, c, t), a * t * t + b * t + c), "quadratic function");
  verif::check(verif::near(s.cubic(a, b, c, d, t), a * t * t * t + b * t * t + c * t + d), "cubic function");
  verif::check(PolynomialSolver::tolerance == 1e-7 and s.isApproximatelyEqualTo(a, b) == (std::abs(a - b) <= tolerance), "values closer than the tolerance are equal");
}

#ifndef VERIF_PUBLIC_ONLY
VERIF_HARNESS(range_filter, "real")
{
  const auto lo = coefficient("min"), hi = coefficient("max"), x = coefficient("first"), y = coefficient("second");
  verif::assume(lo <= hi);
  const auto in = [&](double v) { return lo - tolerance <= v and v <= hi + tolerance; };
  const auto at = [&](double v) { return v < lo ? (std::abs(v - hi) <= tolerance ? hi : lo) : v > hi ? hi : v; };
  const auto r = PolynomialSolver().filterByRange({x, y}, lo, hi);
  const auto n = static_cast<std::size_t>((in(x) ? 1 : 0) + (in(y) ? 1 : 0));
  verif::check(r.size() == n, "keeps exactly the values within the range, give or take the tolerance");
  if (in(x)) verif::check(r[0] == at(x), "a value in the range is kept, one just outside it becomes the end of the range");
  if (in(y)) verif::check(r[n - 1] == at(y), "a value in the range is kept, one just outside it becomes the end of the range, in order");
  for (const auto v : r) verif::check(lo <= v and v <= hi, "every value kept lies in the range");
}
#endif

VERIF_HARNESS(linear_equation, "real")
{
  const auto a = coefficient("a"), b = coefficient("b"), lo = coefficient("min"), hi = coefficient("max"), x = coefficient("x");
  verif::assume(lo <= hi);
  PolynomialSolver s;
  try {
    const auto r = s.solveLinearEquation(a, b, lo, hi);
    verif::check(not(zero(a) and zero(b)), "an equation every number solves is rejected");
    for (const auto v : r) {
      verif::check(lo <= v and v <= hi, "solutions lie in the range");
      verif::check(zero(a) or std::abs(v - -b / a) <= tolerance, "solutions solve the equation");
    }
    verif::check(r.size() <= 1 and verif::implies(zero(a), r.empty()), "at most one solution, none for a constant");
    if (not zero(a) and lo <= -b / a and -b / a <= hi) verif::check(r.size() == 1 and r[0] == -b / a, "a solution in the range is found");
    verif::cover("solved");
  } catch (const common::SimulationError &) {
    verif::check(zero(a) and zero(b), "only an equation every number solves is rejected");
    verif::cover("rejected");
  }
}

VERIF_HARNESS(quadratic_equation, "real")
{
  const auto a = coefficient("a"), b = coefficient("b"), c = coefficient("c"), lo = coefficient("min"), hi = coefficient("max");
  verif::assume(lo <= hi);
  verif::assume(not zero(a));
  const auto disc = b * b - 4 * a * c;
  PolynomialSolver s;
  const auto r = s.solveQuadraticEquation(a, b, c, lo, hi);
  for (const auto v : r) verif::check(lo <= v and v <= hi, "solutions lie in the range");
  const auto in = [&](double v) { return lo <= v and v <= hi; };
  const auto out = [&](double v) { return v < lo - 2 * tolerance or v > hi + 2 * tolerance; };
  if (disc < -tolerance) {
    verif::check(r.empty(), "no solution when the discriminant is negative");
    verif::cover("none");
  } else if (disc <= tolerance) {
    const auto x = -b / (2 * a);
    verif::check(r.size() <= 1, "one solution when the discriminant is zero");
    if (in(x)) verif::check(r.size() == 1 and verif::near(r[0], x), "the double root, when it is in the range");
    if (out(x)) verif::check(r.empty(), "nothing when it is not");
    verif::cover("one");
  } else {
    const auto root = std::sqrt(disc);
    const auto x = (-b - root) / (2 * a), y = (-b + root) / (2 * a);
    verif::check(verif::near(a * x * x + b * x + c, 0) and verif::near(a * y * y + b * y + c, 0) and x != y, "lemma: the two roots of the equation");
    verif::check(r.size() <= 2, "two solutions when the discriminant is positive");
    if (in(x)) verif::check(not r.empty() and verif::near(r[0], x), "the first root, when it is in the range");
    if (in(y)) verif::check(not r.empty() and verif::near(r[r.size() - 1], y), "the second root, when it is in the range");
    if (in(x) and in(y)) verif::check(r.size() == 2, "both roots, when both are in the range");
    if (out(x) and out(y)) verif::check(r.empty(), "neither, when neither is in the range");
    if ((in(x) and out(y)) or (out(x) and in(y))) verif::check(r.size() == 1, "only the root in the range");
    verif::cover("two");
  }
}

// a vanishing leading coefficient leaves the equation of lower degree
VERIF_HARNESS(lower_degree, "real")
{
  const auto a = coefficient("a"), b = coefficient("b"), c = coefficient("c"), lo = coefficient("min"), hi = coefficient("max");
  verif::assume(lo <= hi and zero(a) and not(zero(b) and zero(c)));
  PolynomialSolver s;
  const auto linear = s.solveLinearEquation(b, c, lo, hi), quadratic = s.solveQuadraticEquation(a, b, c, lo, hi), cubic = s.solveCubicEquation(a, a, b, c, lo, hi);
  verif::check(quadratic.size() == linear.size() and cubic.size() == linear.size(), "as many solutions as the linear equation");
  if (not linear.empty()) verif::check(quadratic[0] == linear[0] and cubic[0] == linear[0], "the solution of the linear equation");
}

// cubic equations, by their roots: checked on the compiled code
VERIF_HARNESS(cubic_three_roots, "real,native")
{
  const auto a = coefficient("a"), x = coefficient("x"), y = coefficient("y"), z = coefficient("z");
  verif::assume(std::abs(a) > 0.01 and std::abs(x) <= 10 and std::abs(y) <= 10 and std::abs(z) <= 10);
  verif::assume(std::abs(x - y) > 0.05 and std::abs(y - z) > 0.05 and std::abs(x - z) > 0.05);
  const auto r = PolynomialSolver().solveCubicEquation(a, -a * (x + y + z), a * (x * y + y * z + z * x), -a * x * y * z, -20, 20);
  verif::check(r.size() == 3 and contains(r, x, 1e-4) and contains(r, y, 1e-4) and contains(r, z, 1e-4), "the three real roots of a cubic are found");
}

VERIF_HARNESS(cubic_one_root, "real,native")
{
  const auto a = coefficient("a"), x = coefficient("x"), p = coefficient("p"), q = coefficient("q"), lo = coefficient("min"), hi = coefficient("max");
  verif::assume(std::abs(a) > 0.01 and std::abs(x) <= 10 and std::abs(p) <= 10 and std::abs(q) <= 10 and std::abs(q) > 0.3 and lo < hi);
  // a (t - x) ((t - p)^2 + q^2)
  const auto m = p * p + q * q;
  const auto r = PolynomialSolver().solveCubicEquation(a, -a * (x + 2 * p), a * (m + 2 * p * x), -a * x * m, lo, hi);
  if (lo + 1e-4 <= x and x <= hi - 1e-4) verif::check(r.size() == 1 and contains(r, x, 1e-4), "the only real root of a cubic is found");
  if (x < lo - 1e-4 or hi + 1e-4 < x) verif::check(r.empty(), "a root outside the range is not");
}
VERIF_HARNESS(cubic_multiple_root, "real,native")
{
  const auto a = coefficient("a"), x = coefficient("x"), y = coefficient("y");
  verif::assume(std::abs(a) > 0.01 and std::abs(x) <= 10 and std::abs(y) <= 10);
  const auto r = PolynomialSolver().solveCubicEquation(a, -a * (2 * x + y), a * (x * x + 2 * x * y), -a * x * x * y, -20, 20);
  verif::check(contains(r, x, 0.05) and contains(r, y, 0.05), "the multiple root of a cubic is found");
}
