// Contracts of the actions on parameters: parameter_action.cpp, parameter_set_action.cpp, parameter_modify_action.cpp,
// modify_rule.cpp, parameter_add_value_rule.cpp, parameter_multiply_by_value_rule.cpp and the numbers they modify.
#include "interpreter.hpp"

#include <openscenario_interpreter/syntax/parameter_action.hpp>
#undef private
#undef protected

#include <common/scenario_simulator_exception/src/scenario_simulator_exception.cpp>
#include <openscenario/openscenario_interpreter/src/object.cpp>
#include <openscenario/openscenario_interpreter/src/scope.cpp>
#include <openscenario/openscenario_interpreter/src/reader/attribute.cpp>
#include <openscenario/openscenario_interpreter/src/reader/element.cpp>
#include <openscenario/openscenario_interpreter/src/utility/demangle.cpp>
#define SOURCE(x) <openscenario/openscenario_interpreter/src/syntax/x.cpp>
#include SOURCE(boolean)
#include SOURCE(double)
#include SOURCE(integer)
#include SOURCE(unsigned_integer)
#include SOURCE(unsigned_short)
#include SOURCE(parameter_action)
#include SOURCE(parameter_set_action)
#include SOURCE(parameter_modify_action)
#include SOURCE(modify_rule)
#include SOURCE(parameter_add_value_rule)
#include SOURCE(parameter_multiply_by_value_rule)
#undef SOURCE

using namespace openscenario_interpreter;

namespace
{
// a scenario with a parameter x, another parameter y, and an action on x
struct Stage
{
  Scope scope{nullptr};
  pugi::xml_document document;
  Object x, y = make<Integer>(5);
  template <typename T>
  explicit Stage(const T & value) : x(make<T>(value))
  {
    scope.insert("x", x);
    scope.insert("y", y);
  }
  auto set(const char * value, const char * name = "x") -> ParameterAction
  {
    auto node = document.append_child("ParameterAction");
    node.append_attribute("parameterRef") = name;
    node.append_child("SetAction").append_attribute("value") = value;
    return ParameterAction(node, scope);
  }
  auto modify(bool adds, double value, const char * name = "x") -> ParameterAction
  {
    auto node = document.append_child("ParameterAction");
    node.append_attribute("parameterRef") = name;
    node.append_child("ModifyAction").append_child("Rule").append_child(adds ? "AddValue" : "MultiplyByValue").append_attribute("value") = "0";
    ParameterAction action(node, scope);
    const auto & rule = action.as<ParameterModifyAction>().rule;
    const_cast<Double &>(adds ? rule.as<ParameterAddValueRule>().value : rule.as<ParameterMultiplyByValueRule>().value).data = value;
    return action;
  }
};

template <typename F>
auto throws(F && f) -> bool
{
  try {
    f();
  } catch (const std::exception &) {
    return true;
  }
  return false;
}

template <typename T>
auto sets(const char * value, const T & before, const T & expected) -> void
{
  Stage stage(before);
  auto action = stage.set(value);
  verif::check(stage.x.as<T>() == before, "nothing is set before the action starts");
  action.start();
  verif::check(stage.x.as<T>() == expected, "the value is set as the type of the parameter");
  verif::check(stage.y.as<Integer>() == 5 and action.endsImmediately(), "at once, and of no other parameter");
}
}  // namespace

VERIF_HARNESS(set_boolean, "")
{
  sets<Boolean>("true", verif::any<bool>("before"), true);
  sets<Boolean>("false", verif::any<bool>("before"), false);
}
VERIF_HARNESS(set_integer, "") { sets<Integer>("-7", verif::any<int>("before"), -7); }
VERIF_HARNESS(set_unsigned, "")
{
  sets<UnsignedInteger>("7", verif::any<std::uint64_t>("before"), 7);
  sets<UnsignedShort>("7", UnsignedShort(verif::any<std::uint16_t>("before")), UnsignedShort(7));
}
VERIF_HARNESS(set_double, "") { sets<Double>("-0.5", verif::any_real("before"), -0.5); }
VERIF_HARNESS(set_string, "") { sets<String>("new", verif::any<std::string>("before"), std::string("new")); }

VERIF_HARNESS(set_errors, "")
{
  const auto rejects = [](auto value, const char * text) {
    Stage stage(value);
    auto action = stage.set(text);
    return throws([&]() { action.start(); }) and stage.x.template as<decltype(value)>() == value;
  };
  verif::check(rejects(Boolean(true), "yes") and rejects(Integer(3), "x") and rejects(Double(3), "fast") and rejects(UnsignedInteger(3), "-1") and rejects(UnsignedShort(3), "70000"), "text that is no value of the type is an error, and sets nothing");
  Stage stage{Integer(3)};
  auto unknown = stage.set("1", "z");
  verif::check(throws([&]() { unknown.start(); }), "so is an unknown parameter");
}

VERIF_HARNESS(modify_double, "")
{
  const auto before = verif::any<double>("before"), value = verif::any<double>("value");
  const bool adds = verif::any<bool>("adds");
  Stage stage{Double(before)};
  stage.modify(adds, value).start();
  verif::check(verif::same(stage.x.as<Double>(), adds ? before + value : before * value), "adds or multiplies");
  verif::check(stage.y.as<Integer>() == 5, "no other parameter");
}

namespace
{
// The sum or product is the one of floating point numbers, of which the whole part is kept. (What has no whole part of
// the type of the parameter is outside the contract: C++ leaves the conversion undefined.)
template <typename T>
auto modifies(const T & before, double limit_below, double limit_above) -> void
{
  const bool adds = verif::any<bool>("adds");
  const auto value = verif::any<double>("value");
  const double after = adds ? static_cast<typename T::value_type>(before) + value : static_cast<typename T::value_type>(before) * value;
  verif::assume(limit_below < after and after < limit_above);
  Stage stage{before};
  stage.modify(adds, value).start();
  verif::check(static_cast<typename T::value_type>(stage.x.as<T>()) == static_cast<typename T::value_type>(after), "adds or multiplies");
}
}  // namespace

VERIF_HARNESS(modify_integer, "") { modifies<Integer>(verif::any<int>("before"), -2147483649.0, 2147483648.0); }
VERIF_HARNESS(modify_unsigned_integer, "") { modifies<UnsignedInteger>(verif::any<std::uint64_t>("before"), -1.0, 18446744073709551616.0); }
VERIF_HARNESS(modify_unsigned_short, "") { modifies<UnsignedShort>(UnsignedShort(verif::any<std::uint16_t>("before")), -1.0, 65536.0); }

VERIF_HARNESS(modify_examples, "")
{
  const auto modified = [](auto value, bool adds, double by) {
    Stage stage(value);
    stage.modify(adds, by).start();
    return stage.x.template as<decltype(value)>();
  };
  verif::check(modified(Integer(3), true, -5) == -2 and modified(Integer(3), false, -1.5) == -4 and modified(Integer(3), true, 0.75) == 3, "integers");
  verif::check(modified(UnsignedInteger(3), true, -2) == 1 and modified(UnsignedInteger(4), false, 0.25) == 1 and modified(UnsignedInteger(3), false, 2.5) == 7, "unsigned integers");
  verif::check(modified(UnsignedShort(3), true, -2) == 1 and modified(UnsignedShort(4), false, 0.25) == 1 and modified(UnsignedShort(3), false, 2.5) == 7, "unsigned shorts");
  verif::check(modified(Double(3), true, -0.5) == 2.5 and modified(Double(3), false, -0.5) == -1.5, "doubles");
}

VERIF_HARNESS(modify_errors, "")
{
  const bool adds = verif::any<bool>("adds");
  Stage text{String("a")};
  auto of_text = text.modify(adds, 1);
  verif::check(throws([&]() { of_text.start(); }) and text.x.as<String>() == "a", "text is not modified");
  Stage logical{Boolean(true)};
  auto of_boolean = logical.modify(adds, 1);
  verif::check(throws([&]() { of_boolean.start(); }) and logical.x.as<Boolean>(), "truth values are not modified");
  auto unknown = text.modify(adds, 1, "z");
  verif::check(throws([&]() { unknown.start(); }), "unknown parameters are an error");
}
