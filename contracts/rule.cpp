// Contracts of Rule (openscenario_interpreter/syntax/rule.hpp)
#include <verif.hpp>
#include <cmath>
#include <openscenario_interpreter/syntax/rule.hpp>

using namespace openscenario_interpreter;

static bool close(double a, double b)
{
  return std::abs(a - b) < std::numeric_limits<double>::epsilon();
}

VERIF_HARNESS(rule_scalar, "")
{
  auto a = verif::any<double>("lhs"), b = verif::any<double>("rhs");
  verif::check(Rule(Rule::greaterThan)(a, b) == (a > b), "greaterThan");
  verif::check(Rule(Rule::lessThan)(a, b) == (a < b), "lessThan");
  verif::check(Rule(Rule::greaterOrEqual)(a, b) == (a >= b), "greaterOrEqual");
  verif::check(Rule(Rule::lessOrEqual)(a, b) == (a <= b), "lessOrEqual");
  verif::check(Rule(Rule::equalTo)(a, b) == close(a, b), "equalTo");
  verif::check(Rule(Rule::notEqualTo)(a, b) == (a != b), "notEqualTo");
}
