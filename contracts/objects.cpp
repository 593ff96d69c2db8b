// Contracts of the interpreter's object model (pointer.hpp, expression.hpp, object.hpp): an object keeps the value it
// was made from, knows its exact type, is usable as each of its bases and as nothing else, and evaluation, goal check,
// description and printing reach the value's own functions, with the documented default where it has none.
#include <verif.hpp>

#include <cstdint>
#include <iomanip>
#include <iostream>
#include <list>
#include <memory>
#include <sstream>
#include <string>
#include <typeindex>
#include <vector>

#include <boost/lexical_cast.hpp>
#include <openscenario_interpreter/expression.hpp>
#include <openscenario_interpreter/pointer.hpp>
#include <openscenario_interpreter/object.hpp>

#include <common/scenario_simulator_exception/src/scenario_simulator_exception.cpp>
#include <openscenario/openscenario_interpreter/src/object.cpp>
#include <openscenario/openscenario_interpreter/src/utility/demangle.cpp>

using namespace openscenario_interpreter;

namespace
{
struct Base
{
  int number = 0;
  explicit Base(int number) : number(number) {}
  virtual ~Base() = default;
  virtual int twice() const { return 2 * number; }
};
struct Derived : public Base
{
  std::string text;
  int evaluations = 0;
  Derived(int number, const std::string & text) : Base(number), text(text) {}
  int twice() const override { return number + number; }
  auto evaluate() -> Object
  {
    ++evaluations;
    return unspecified;
  }
  auto accomplished() -> bool { return evaluations > 1; }
  auto description() const -> std::string { return "derived " + text; }
};
struct Plain
{
  int value = 0;
  Plain() = default;
  explicit Plain(int value) : value(value) {}
};
auto operator<<(std::ostream & os, const Derived & x) -> std::ostream & { return os << "<" << x.text << ">"; }
}  // namespace

VERIF_HARNESS(made, "")
{
  const auto n = verif::any<int>("n");
  const auto s = verif::any<std::string>("s");
  const auto object = make<Derived>(n, s);
  verif::check(static_cast<bool>(object) and object.is<Derived>() and not object.is<Base>() and not object.is<Plain>() and not object.is<std::string>(), "is of the type it was made of, and no other");
  verif::check(object.type() == typeid(Derived), "knows its type");
  verif::check(object.is_also<Derived>() and object.is_also<Base>() and object.is_also<Expression>() and not object.is_also<Plain>(), "is also each of its bases, and nothing else");
  verif::check(object.as<Derived>().number == n and object.as<Derived>().text == s, "keeps the value it was made from");
  verif::check(object.as<Base>().number == n and &object.as<Base>() == &static_cast<Base &>(object.as<Derived>()), "is the same value as each of its bases");
  verif::check(openscenario_interpreter::is<Derived>()(object) and openscenario_interpreter::is_also<Base>()(object) and not openscenario_interpreter::is<Base>()(object) and openscenario_interpreter::is<Object>()(object) and openscenario_interpreter::is_also<Object>()(object), "the predicates say the same");
}

VERIF_HARNESS(shared, "")
{
  const auto n = verif::any<int>("n"), m = verif::any<int>("m");
  const auto object = make<Derived>(n, "");
  const auto copy = object;
  object.as<Derived>().number = m;
  verif::check(copy.as<Derived>().number == m and copy == object, "copies share the value");
  const auto other = make<Derived>(m, "");
  verif::check(not(other == object), "objects made separately are different");
  auto bound = object;
  bound.rebind<Plain>(n);
  verif::check(bound.is<Plain>() and bound.as<Plain>().value == n and object.is<Derived>(), "binding anew leaves the other copies alone");
}

template <typename F>
static bool rejects(F f)
{
  try {
    f();
  } catch (const common::SemanticError &) {
    return true;
  }
  return false;
}

VERIF_HARNESS(misuse, "")
{
  const auto object = make<Plain>(verif::any<int>("n"));
  const Object null;
  verif::check(rejects([&]() { object.as<Base>(); }), "a value is not usable as what it is not");
  verif::check(rejects([&]() { object.as<Derived>(); }), "a value is not usable as another type");
  verif::check(rejects([&]() { null.as<Plain>(); }), "no value is not usable as one");
  verif::check(rejects([&]() { null.evaluate(); }), "no value does not evaluate");
  verif::check(rejects([&]() { null.accomplished(); }) and rejects([&]() { null.description(); }), "no value has no goal or description");
  verif::check(not null.is<Plain>() and not null.is_also<Plain>() and null.type() == typeid(nullptr), "no value has no type");
}

VERIF_HARNESS(dispatch, "")
{
  const auto s = verif::any<std::string>("s");
  const auto derived = make<Derived>(1, s);
  const auto plain = make<Plain>(2);
  verif::check(not derived.accomplished(), "asks the value whether its goal is accomplished");
  verif::check(derived.evaluate() == unspecified and derived.as<Derived>().evaluations == 1, "evaluates the value once");
  derived.evaluate();
  verif::check(derived.as<Derived>().evaluations == 2 and derived.accomplished(), "evaluates again");
  verif::check(derived.description() == "derived " + s, "describes the value");
  verif::check(plain.evaluate() == plain, "a value that does not evaluate stands for itself");
  verif::check(plain.description() == "", "a value without description has none");
  verif::check(unspecified.evaluate() == unspecified, "unspecified stands for itself");
  std::ostringstream a;
  a << derived.as<Derived>();
  verif::check(a.str() == "<" + s + ">", "prints the value");
  std::ostringstream b;
  b << derived;
  verif::check(b.str() == "<" + s + ">", "an object prints as its value");
  std::ostringstream c;
  c << Object();
  verif::check(c.str() == "<TODO/>", "no value prints a placeholder");
  verif::check(not plain.accomplished(), "a value without goal has not accomplished it");
}
