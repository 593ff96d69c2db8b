// Contracts of the error types and messages every component reports through (scenario_simulator_exception), and of
// the scoped setting of the status monitor.
#include <verif.hpp>

#include <atomic>
#include <cstdint>
#include <cstring>
#include <iomanip>
#include <sstream>
#include <stdexcept>
#include <string>

#include <openscenario/openscenario_interpreter/src/utility/demangle.cpp>
#include <common/scenario_simulator_exception/src/scenario_simulator_exception.cpp>
#include <openscenario_interpreter/error.hpp>
#include <scenario_simulator_exception/concatenate.hpp>
#include <scenario_simulator_exception/exception.hpp>
#include <scenario_simulator_exception/fold.hpp>

VERIF_HARNESS(concatenation, "")
{
  const auto a = verif::any<std::string>("a"), b = verif::any<std::string>("b");
  const auto i = verif::any<int>("i");
  const auto u = verif::any<std::uint64_t>("u");
  const auto c = static_cast<char>(verif::any_in("c", 32, 126));
  verif::check(common::concatenate(a) == a, "one part is the text");
  verif::check(common::concatenate(a, b) == a + b, "parts follow each other without separator");
  verif::check(common::concatenate(a, ":", i, b, u, c) == a + ":" + std::to_string(i) + b + std::to_string(u) + std::string(1, c), "numbers and characters are parts too");
}

template <typename E, typename F>
static std::string thrown(F f)
{
  auto category = 0;
  try {
    f();
  } catch (const E & e) {
    category = 1;
  } catch (...) {
    category = 2;
  }
  verif::check(category == 1, "is of its category, and of no other");
  try {
    f();
  } catch (const common::Error & e) {
    std::string what = e.what();
    try {
      f();
    } catch (const std::runtime_error & r) {
      verif::check(what == r.what(), "the message is that of the exception");
    }
    return what;
  } catch (...) {
  }
  verif::fail("every error is an Error");
  return "";
}

VERIF_HARNESS(categories, "")
{
  const auto a = verif::any<std::string>("a");
  const auto i = verif::any<int>("i");
  verif::assume(a.find('\0') == std::string::npos);
  const std::string file = __FILE__;
  const auto expected = [&](int line) { return file + ":" + std::to_string(line) + ": " + a + std::to_string(i); };
  auto line = 0;
  auto what = thrown<common::SemanticError>([&]() { line = __LINE__; THROW_SEMANTIC_ERROR(a, i); });
  verif::check(what == expected(line), "a semantic error names its origin and message");
  what = thrown<common::SimulationError>([&]() { line = __LINE__; THROW_SIMULATION_ERROR(a, i); });
  verif::check(what == expected(line), "a simulation error names its origin and message");
  what = thrown<common::SpecificationViolation>([&]() { line = __LINE__; THROW_SPECIFICATION_VIOLATION(a, i); });
  verif::check(what == expected(line), "a specification violation names its origin and message");
  what = thrown<common::SyntaxError>([&]() { line = __LINE__; THROW_SYNTAX_ERROR(a, i); });
  verif::check(what == expected(line), "a syntax error names its origin and message");
  what = thrown<common::AutowareError>([&]() { throw common::AutowareError(a, i); });
  verif::check(what == a + std::to_string(i), "an Autoware error has its message");
}

VERIF_HARNESS(folds, "")
{
  const auto a = verif::any_in("a", -1000, 1000), b = verif::any_in("b", -1000, 1000), c = verif::any_in("c", -1000, 1000), d = verif::any_in("d", -1000, 1000);
  const auto minus = [](int x, int y) { return x - y; };
  verif::check(common::fold_left(minus, a) == a and common::fold_right(minus, a) == a, "one value folds to itself");
  verif::check(common::fold_left(minus, a, b) == a - b and common::fold_right(minus, a, b) == a - b, "two values");
  verif::check(common::fold_left(minus, a, b, c, d) == ((a - b) - c) - d, "folds from the left");
  verif::check(common::fold_right(minus, a, b, c, d) == a - (b - (c - d)), "folds from the right");
}
