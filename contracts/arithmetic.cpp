// Contracts of common/math/arithmetic: tolerant comparison of floating point numbers.
#include <verif.hpp>

#include <cmath>
#include <limits>
#include <arithmetic/floating_point/comparison.hpp>

using namespace math::arithmetic;

namespace
{
constexpr auto e = std::numeric_limits<double>::epsilon();
double larger(double a, double b) { return std::abs(a) < std::abs(b) ? std::abs(b) : std::abs(a); }
double smaller(double a, double b) { return std::abs(b) < std::abs(a) ? std::abs(b) : std::abs(a); }
}  // namespace

VERIF_HARNESS(comparison, "")
{
  const auto a = verif::any_real("a"), b = verif::any_real("b");
  verif::check(isApproximatelyEqualTo(a, b) == (std::abs(a - b) <= e * larger(a, b)), "approximately equal: within epsilon of the larger magnitude");
  verif::check(isEssentiallyEqualTo(a, b) == (std::abs(a - b) <= e * smaller(a, b)), "essentially equal: within epsilon of the smaller magnitude");
  verif::check(isDefinitelyLessThan(a, b) == (b - a > e * larger(a, b)), "definitely less: below by more than epsilon of the larger magnitude");
  verif::check(isDefinitelyGreaterThan(a, b) == (a - b > e * larger(a, b)), "definitely greater: above by more than epsilon of the larger magnitude");
}

VERIF_HARNESS(comparison_laws, "real")
{
  const auto a = verif::any_real("a"), b = verif::any_real("b");
  verif::check(isApproximatelyEqualTo(a, a) and isEssentiallyEqualTo(a, a), "a number equals itself");
  verif::check(isApproximatelyEqualTo(a, b) == isApproximatelyEqualTo(b, a) and isEssentiallyEqualTo(a, b) == isEssentiallyEqualTo(b, a), "equality is symmetric");
  verif::check(isDefinitelyLessThan(a, b) == isDefinitelyGreaterThan(b, a), "less and greater are converse");
  const auto l = isDefinitelyLessThan(a, b), g = isDefinitelyGreaterThan(a, b), q = isApproximatelyEqualTo(a, b);
  verif::check((l ? 1 : 0) + (g ? 1 : 0) + (q ? 1 : 0) == 1, "any two numbers are exactly one of less, greater and approximately equal");
}

VERIF_HARNESS(comparison_implication, "")
{
  const auto a = verif::any_real("a"), b = verif::any_real("b");
  verif::check(verif::implies(isEssentiallyEqualTo(a, b), isApproximatelyEqualTo(a, b)), "essentially equal numbers are approximately equal");
}

VERIF_HARNESS(comparison_chain, "")
{
  const auto a = verif::any_real("a"), b = verif::any_real("b"), c = verif::any_real("c");
  const auto less = [](double x, double y) { return y - x > e * larger(x, y); };
  verif::check(isDefinitelyLessThan(a, b, c) == (less(a, b) and less(b, c)), "a chain of three is less when each is less than the next");
}
