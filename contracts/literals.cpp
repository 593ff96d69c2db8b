// Contracts of the numeric and boolean literals of openscenario_interpreter (src/syntax/*.cpp).
#include <verif.hpp>

#include <cstdint>
#include <iomanip>
#include <sstream>
#include <string>
#include <boost/lexical_cast.hpp>
#include <openscenario_interpreter/expression.hpp>
#include <openscenario_interpreter/pointer.hpp>
#include <openscenario_interpreter/object.hpp>

#include <openscenario/openscenario_interpreter/src/utility/demangle.cpp>
#include <openscenario/openscenario_interpreter/src/object.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/boolean.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/double.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/integer.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp>

using namespace openscenario_interpreter;

namespace
{
enum Reading { accepted, syntax_error, other_error };

// constructs T from TEXT
template <typename T>
Reading construct(const std::string & text, T & value)
{
  try {
    value = T(text);
    return accepted;
  } catch (const SyntaxError &) {
    return syntax_error;
  } catch (const std::exception &) {
    return other_error;
  }
}

// reads TEXT as T, the way an attribute is read
template <typename T>
bool read(const std::string & text, T & value)
{
  try {
    value = boost::lexical_cast<T>(text);
    return true;
  } catch (const std::exception &) {
    return false;
  }
}

bool is_space(char c) { return c == ' ' or ('\t' <= c and c <= '\r'); }

// the number TEXT denotes, as the standard library reads it
template <typename V>
bool denotes(const std::string & text, V & value)
{
  try {
    value = boost::lexical_cast<V>(text);
    return true;
  } catch (const boost::bad_lexical_cast &) {
    return false;
  }
}

bool same(double a, double b) { return a == b ? std::signbit(a) == std::signbit(b) : (a != a and b != b); }

template <typename T, typename V>
void integral(bool negative_allowed)
{
  auto text = verif::any<std::string>("text");
  V number = 0;
  const auto negative = not text.empty() and text.front() == '-';
  const auto valid = denotes(text, number) and (negative_allowed or not negative);
  const auto minus_zero = negative and number == 0;
  T value{};
  const auto result = construct<T>(text, value);
  verif::check(result != other_error, "a rejected literal is a syntax error");
  verif::check((result == accepted) == valid or minus_zero, "constructing accepts exactly the literals of the type");
  verif::check(result != accepted or value.data == number, "constructing yields the number denoted");
  T datum{};
  const auto got = read<T>(text, datum);
  verif::check(got == valid or minus_zero, "reading accepts exactly the literals of the type");
  verif::check(not got or datum.data == number, "reading yields the number denoted");
  if (got) verif::cover("some text is read");
  if (not got) verif::cover("some text is rejected");
}

template <typename T, typename V>
void printing()
{
  auto number = verif::any<V>("number");
  T value{};
  value.data = number;
  auto text = boost::lexical_cast<std::string>(value);
  T again{};
  verif::check(read<T>(text, again) and again.data == number, "what is printed reads back as the same number");
  verif::check(construct<T>(text, again) == accepted and again.data == number, "what is printed constructs the same number");
}
}  // namespace

VERIF_HARNESS(integer_reads, "") { integral<Integer, std::int64_t>(true); }
VERIF_HARNESS(integer_prints, "") { printing<Integer, std::int64_t>(); }
VERIF_HARNESS(unsigned_integer_reads, "") { integral<UnsignedInteger, std::uint64_t>(false); }
VERIF_HARNESS(unsigned_integer_prints, "") { printing<UnsignedInteger, std::uint64_t>(); }
VERIF_HARNESS(unsigned_short_reads, "") { integral<UnsignedShort, std::uint16_t>(false); }
VERIF_HARNESS(unsigned_short_prints, "") { printing<UnsignedShort, std::uint16_t>(); }

VERIF_HARNESS(boolean_constructs, "")
{
  auto text = verif::any<std::string>("text");
  verif::assume(text.empty() or not is_space(text.front()));  // leading blanks are skipped
  Boolean value{};
  const auto result = construct<Boolean>(text, value);
  verif::check(result != other_error, "a rejected literal is a syntax error");
  verif::check((result == accepted) == (text == "true" or text == "false"), "accepts exactly true and false");
  verif::check(result != accepted or value.data == (text == "true"), "yields the value denoted");
}

VERIF_HARNESS(boolean_reads, "")
{
  auto text = verif::any<std::string>("text");
  Boolean value{};
  const auto got = read<Boolean>(text, value);
  verif::check(got == (text == "true" or text == "false"), "accepts exactly true and false");
  verif::check(not got or value.data == (text == "true"), "yields the value denoted");
}

VERIF_HARNESS(boolean_prints, "")
{
  Boolean value{};
  value.data = verif::any<bool>("value");
  verif::check(boost::lexical_cast<std::string>(value) == (value.data ? "true" : "false"), "prints the literal");
  verif::check(static_cast<bool>(asBoolean(value.data).as<Boolean>()) == value.data, "the boolean object has that value");
}

VERIF_HARNESS(double_constructs, "")
{
  auto text = verif::any<std::string>("text");
  double number = 0;
  const auto valid = denotes(text, number);
  Double value{};
  const auto result = construct<Double>(text, value);
  verif::check(result != other_error, "a rejected literal is a syntax error");
  verif::check((result == accepted) == valid, "accepts exactly the literals of the type");
  verif::check(result != accepted or same(value.data, number), "yields the number denoted");
}

VERIF_HARNESS(double_reads, "")
{
  auto text = verif::any<std::string>("text");
  double number = 0;
  const auto infinite = text == "INF" or text == "+INF" or text == "-INF";
  const auto valid = denotes(text, number);
  Double value{};
  const auto got = read<Double>(text, value);
  verif::check(got == (infinite or valid), "accepts exactly the literals of the type");
  verif::check(not got or infinite or same(value.data, number), "yields the number denoted");
  verif::check(not got or not infinite or (std::isinf(value.data) and std::signbit(value.data) == (text == "-INF")), "yields the infinity denoted");
}

VERIF_HARNESS(double_arithmetic, "")
{
  auto a = verif::any<double>("a"), b = verif::any<double>("b");
  Double sum{a}, product{a}, assigned{a};
  sum += b;
  product *= b;
  assigned = b;
  verif::check(same(static_cast<double>(Double(a)), a), "holds the number");
  verif::check(same(sum.data, a + b), "addition");
  verif::check(same(product.data, a * b), "multiplication");
  verif::check(same(assigned.data, b), "assignment");
  verif::check(std::isinf(Double::infinity().data) and Double::infinity().data > 0, "infinity");
  verif::check(std::isnan(Double::nan().data), "not a number");
  verif::check(verif::implies(std::isfinite(a), a <= Double::max().data and a >= Double::lowest().data), "max and lowest bound every finite number");
}

// (addition and multiplication by real numbers are under contract in parameters.cpp)
VERIF_HARNESS(unsigned_arithmetic, "")
{
  auto a = verif::any<std::uint64_t>("a");
  auto c = verif::any<std::uint16_t>("c");
  UnsignedInteger next{a};
  verif::check((++next).data == a + 1 and next.data == a + 1, "integer increment");
  UnsignedShort snext{c};
  verif::check((++snext).data == static_cast<std::uint16_t>(c + 1), "short increment");
}

VERIF_HARNESS(integer_limits, "")
{
  auto a = verif::any<std::int64_t>("a");
  verif::check(a >= Integer::min().data and a <= Integer::max().data, "min and max bound every integer");
  verif::check(static_cast<std::int64_t>(Integer(a)) == a, "holds the number");
}
