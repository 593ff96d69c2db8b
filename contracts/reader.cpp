// Contracts of reading a scenario: reader/attribute.{hpp,cpp}, reader/element.{hpp,cpp}, parameter_declaration.cpp,
// parameter_declarations.cpp, value_constraint.cpp, value_constraint_group.cpp, parameter_condition.cpp.
#include "interpreter.hpp"

#include <openscenario_interpreter/reader/attribute.hpp>
#include <openscenario_interpreter/reader/element.hpp>
#include <openscenario_interpreter/syntax/parameter_condition.hpp>
#include <openscenario_interpreter/syntax/parameter_declarations.hpp>
#include <openscenario_interpreter/syntax/priority.hpp>
#undef private
#undef protected

#include <common/scenario_simulator_exception/src/scenario_simulator_exception.cpp>
#include <openscenario/openscenario_interpreter/src/object.cpp>
#include <openscenario/openscenario_interpreter/src/scope.cpp>
#include <openscenario/openscenario_interpreter/src/reader/attribute.cpp>
#include <openscenario/openscenario_interpreter/src/reader/element.cpp>
#include <openscenario/openscenario_interpreter/src/utility/demangle.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/boolean.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/double.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/integer.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/parameter_condition.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/parameter_declaration.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/parameter_declarations.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/parameter_type.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/priority.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/rule.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/value_constraint.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/value_constraint_group.cpp>

// where packages are installed (the index of installed packages is not part of the code checked)
auto ament_index_cpp::get_package_share_directory(const std::string & name) -> std::string
{
  return "/share/" + name;
}

using namespace openscenario_interpreter;

namespace
{
using Attributes = std::vector<std::pair<const char *, const char *>>;
auto element(pugi::xml_node parent, const char * kind, const Attributes & attributes = {}) -> pugi::xml_node
{
  auto node = parent.append_child(kind);
  for (const auto & [name, value] : attributes) node.append_attribute(name) = value;
  return node;
}

template <typename F>
auto rejected(F f) -> bool
{
  try {
    f();
  } catch (const std::exception &) {
    return true;
  }
  return false;
}

template <typename T>
auto read(const char * value, const Scope & scope) -> T
{
  pugi::xml_document document;
  return readAttribute<T>("a", element(document, "Class", {{"b", "other"}, {"a", value}}), scope);
}

template <typename T>
auto refuses(const char * value, const Scope & scope) -> bool
{
  return rejected([&]() { read<T>(value, scope); });
}
}  // namespace

VERIF_HARNESS(presence, "")
{
  Scope scope(nullptr);
  pugi::xml_document document;
  const bool present = verif::any<bool>("present");
  const auto node = present ? element(document, "Class", {{"b", "7"}, {"a", "5"}}) : element(document, "Class", {{"b", "7"}, {"A", "5"}});
  const int value = verif::any<int>("value");
  verif::check(static_cast<int>(readAttribute<Integer>("a", node, scope, Integer(value))) == (present ? 5 : value), "an absent attribute has the value given as its default");
  const auto optional = readAttribute<Integer>("a", node, scope, std::nullopt);
  verif::check(optional.has_value() == present and (not present or static_cast<int>(*optional) == 5), "an optional attribute is there when it is specified");
  verif::check(rejected([&]() { readAttribute<Integer>("a", node, scope); }) != present, "a required attribute has to be specified");
}

VERIF_HARNESS(literals, "")
{
  const Scope scope(nullptr);
  verif::check(read<Integer>("-12", scope) == -12 and read<UnsignedInteger>("12", scope) == 12 and read<UnsignedShort>("12", scope) == 12, "reads integers");
  verif::check(read<Double>("1.5", scope) == 1.5 and read<Double>("-INF", scope) < -1e300, "reads numbers");
  verif::check(read<Boolean>("true", scope) and not read<Boolean>("false", scope), "reads booleans");
  verif::check(read<String>("some text", scope) == "some text", "reads texts");
  verif::check(read<Rule>("lessThan", scope) == Rule::lessThan and read<Priority>("parallel", scope) == Priority::parallel, "reads enumerated values");
  verif::check(refuses<Integer>("1.5", scope) and refuses<Integer>("x", scope) and refuses<UnsignedInteger>("-1", scope) and refuses<UnsignedShort>("65536", scope), "rejects what is no integer of the type");
  verif::check(refuses<Double>("1.5x", scope) and refuses<Double>("x", scope) and refuses<Boolean>("1", scope) and refuses<Boolean>("True", scope), "rejects what is no value of the type");
  verif::check(refuses<Rule>("less", scope) and refuses<Priority>("none", scope), "rejects what is no name of the type");
}

VERIF_HARNESS(no_text, "")
{
  const Scope scope(nullptr);
  verif::check(read<String>("", scope).empty() and read<Double>("", scope) == 0 and read<Integer>("", scope) == 0 and not read<Boolean>("", scope), "an empty attribute is the empty value of its type");
}

namespace
{
template <typename T>
auto referenced(const T & value) -> T
{
  Scope outer(nullptr);
  Scope scope("inner", outer);
  outer.insert("parameter", make<T>(value));
  outer.insert("other", make<String>("nothing"));
  return read<T>("$parameter", scope);
}
}  // namespace

VERIF_HARNESS(integer_reference, "")
{
  const int x = verif::any<int>("x");
  verif::check(static_cast<int>(referenced(Integer(x))) == x, "a reference has the value of the parameter");
}
VERIF_HARNESS(unsigned_reference, "")
{
  UnsignedInteger x;
  x.data = verif::any<unsigned>("x");
  verif::check(referenced(x).data == x.data, "a reference has the value of the parameter");
}
VERIF_HARNESS(short_reference, "")
{
  UnsignedShort x;
  x.data = verif::any<unsigned short>("x");
  verif::check(referenced(x).data == x.data, "a reference has the value of the parameter");
}
VERIF_HARNESS(boolean_reference, "")
{
  const bool x = verif::any<bool>("x");
  verif::check(referenced(Boolean(x)) == x, "a reference has the value of the parameter");
}
VERIF_HARNESS(string_reference, "")
{
  const auto x = verif::any<std::string>("x");
  verif::check(referenced(String(x)) == x, "a reference has the value of the parameter");
}
VERIF_HARNESS(converted_reference, "")
{
  Scope scope(nullptr);
  const int x = verif::any<int>("x");
  scope.insert("x", make<Integer>(x));
  if (x >= 0)
    verif::check(static_cast<long>(read<UnsignedInteger>("$x", scope).data) == x, "a parameter of another type is converted");
  else
    verif::check(refuses<UnsignedInteger>("$x", scope), "a value the type does not have is rejected");
  verif::check(read<String>("$x", scope) == std::to_string(x), "a parameter of another type is converted");
}
VERIF_HARNESS(unknown_reference, "")
{
  Scope scope(nullptr);
  scope.insert("parameter", make<String>("1"));
  verif::check(refuses<String>("$unknown", scope) and refuses<String>("$parameter1", scope) and refuses<String>("$", scope), "a reference to no parameter is rejected");
  verif::check(read<String>("parameter", scope) == "parameter" and read<String>("a$parameter", scope) == "a$parameter", "only a leading dollar sign makes a reference");
}

VERIF_HARNESS(substitution, "")
{
  Scope scope(nullptr);
  scope.insert("x", make<String>("value of x"));
  scope.insert("y", make<Integer>(5));
  scope.insert("package", make<String>("p"));
  verif::check(substitute("plain $x text", scope) == "plain $x text" and substitute("", scope).empty(), "keeps what is no substitution");
  verif::check(substitute("$(var x)", scope) == "value of x" and substitute("<$(var x)>", scope) == "<value of x>", "puts the value of the variable in its place");
  verif::check(rejected([&]() { substitute("a$(var unknown)b", scope); }), "rejects an unknown variable");
  verif::check(substitute("$(find-pkg-share p)/map", scope) == "/share/p/map", "gives the folder of the package");
  verif::check(substitute("$(var y)-$(var x)/$(find-pkg-share p)", scope) == "5-value of x//share/p", "makes every substitution of a text");
  verif::check(substitute("$(find-pkg-share $(var package))/map", scope) == "/share/p/map", "makes the inner substitution first");
  verif::check(rejected([&]() { substitute("$(env HOME)", scope); }) and rejected([&]() { substitute("a $(Var x) b", scope); }), "rejects an unknown substitution");
  verif::check(read<Integer>("$(var y)0", scope) == 50, "an attribute is read after substitution");
}

namespace
{
auto parent_of(pugi::xml_document & document, int count) -> pugi::xml_node
{
  auto parent = element(document, "Parent");
  const char * const numbers[] = {"0", "1", "2", "3", "4"};
  for (int i = 0; i < count; ++i) {
    if (verif::any<bool>("other before")) element(parent, "Other");
    element(parent, "Child", {{"n", numbers[i]}});
  }
  if (verif::any<bool>("other after")) element(parent, "Childs");
  return parent;
}

template <Cardinality Min, Cardinality Max>
auto traversed() -> void
{
  pugi::xml_document document;
  const auto count = verif::any_in("count", 0, 4);
  const auto parent = parent_of(document, count);
  std::vector<std::string> seen;
  const bool refused = rejected([&]() { traverse<Min, Max>(parent, "Child", [&](const pugi::xml_node & child) { seen.push_back(child.attribute("n").value()); }); });
  verif::check(refused == (count < Min or Max < count), "accepts as many elements as are allowed");
  if (refused)
    verif::check(seen.empty(), "reads none of too few or too many");
  else {
    bool in_order = static_cast<int>(seen.size()) == count;
    for (std::size_t i = 0; i < seen.size(); ++i) in_order = in_order and seen[i] == std::to_string(i);
    verif::check(in_order, "reads each element once, in the order of the file");
  }
}
}  // namespace

VERIF_HARNESS(traverse_any, "bounded=up to four elements") { traversed<0, unbounded>(); }
VERIF_HARNESS(traverse_some, "bounded=up to four elements") { traversed<1, unbounded>(); }
VERIF_HARNESS(traverse_one, "bounded=up to four elements") { traversed<1, 1>(); }
VERIF_HARNESS(traverse_at_most_one, "bounded=up to four elements") { traversed<0, 1>(); }
VERIF_HARNESS(traverse_two_or_three, "bounded=up to four elements") { traversed<2, 3>(); }

namespace
{
struct Child  // an element with a default
{
  int n = -1;
  Child() = default;
  Child(const pugi::xml_node & node, Scope & scope) : n(static_cast<int>(readAttribute<Integer>("n", node, scope))) {}
};
struct Required  // an element without one
{
  int n;
  Required(const pugi::xml_node & node, Scope & scope, int extra = 0) : n(static_cast<int>(readAttribute<Integer>("n", node, scope)) + extra) {}
};
}  // namespace

VERIF_HARNESS(elements, "bounded=up to four elements")
{
  Scope scope(nullptr);
  pugi::xml_document document;
  const auto count = verif::any_in("count", 0, 4);
  const auto parent = parent_of(document, count);
  verif::check(readElement<Child>("Child", parent, scope).n == (count ? 0 : -1), "an element that is not specified has the default of its type");
  Child value;
  value.n = 77;
  verif::check(readElement<Child>("Child", parent, scope, value).n == (count ? 0 : 77), "an element that is not specified has the default given");
  int n = -1, with_extra = -1;
  const bool refused = rejected([&]() { n = readElement<Required>("Child", parent, scope).n; });
  verif::check(refused == (count == 0) and (refused or n == 0), "a required element has to be specified");
  const bool refused_with_extra = rejected([&]() { with_extra = readElement<Required>("Child", parent, scope, 10).n; });
  verif::check(refused_with_extra == (count == 0) and (refused_with_extra or with_extra == 10), "a required element has to be specified");
  std::list<Child> all;
  const bool refused_all = rejected([&]() { all = readElements<Child, 2>("Child", parent, scope); });
  verif::check(refused_all == (count < 2), "accepts as many elements as are allowed");
  int i = 0;
  for (const auto & child : all) verif::check(child.n == i++, "reads the elements in the order of the file");
  verif::check(refused_all or i == count, "reads every element");
}

VERIF_HARNESS(choices, "")
{
  pugi::xml_document document;
  const auto parent = element(document, "Parent");
  const bool other = verif::any<bool>("other"), a = verif::any<bool>("a"), b = verif::any<bool>("b"), c = verif::any<bool>("c"), twice = verif::any<bool>("twice");
  if (c) element(parent, "C");
  if (other) element(parent, "Other");
  if (b) element(parent, "B", {{"n", "first"}});
  if (a) element(parent, "A");
  if (b and twice) element(parent, "B", {{"n", "second"}});
  std::vector<std::string> called;
  const auto callee = [&](const char * name) {
    return [&called, name](const pugi::xml_node & node) {
      called.push_back(std::string(name) + " " + node.name() + " " + node.attribute("n").value());
      return make<String>(std::string(name));
    };
  };
  Object result;
  const bool refused = rejected([&]() { result = choice(parent, {{"A", callee("a")}, {"B", callee("b")}, {"C", callee("c")}}); });
  const int specified = (a ? 1 : 0) + (b ? 1 : 0) + (c ? 1 : 0);
  verif::check(refused == (specified != 1), "exactly one of the alternatives has to be specified");
  if (refused)
    verif::check(called.empty(), "reads none when the choice is not clear");
  else {
    const std::string name = a ? "a" : b ? "b" : "c";
    verif::check(result.as<String>() == name, "gives what the alternative read");
    verif::check(called == std::vector<std::string>{a ? "a A " : b ? "b B first" : "c C "}, "reads the alternative specified, once");
  }
}

namespace
{
auto declaration_of(pugi::xml_document & document, const char * name, const char * type, const char * value) -> pugi::xml_node
{
  return element(document, "ParameterDeclaration", {{"name", name}, {"parameterType", type}, {"value", value}});
}
template <typename T>
auto declared(const char * type, const char * value, const T & expected) -> bool
{
  Scope scope(nullptr);
  pugi::xml_document document;
  ParameterDeclaration declaration(declaration_of(document, "p", type, value), scope);
  const auto parameter = scope.ref(std::string("p"));
  return parameter.is<T>() and parameter.as<T>() == expected;
}
auto undeclarable(const char * name, const char * type, const char * value) -> bool
{
  Scope scope(nullptr);
  pugi::xml_document document;
  return rejected([&]() { ParameterDeclaration(declaration_of(document, name, type, value), scope); }) and rejected([&]() { scope.ref(std::string("p")); });
}
}  // namespace

VERIF_HARNESS(declarations, "")
{
  verif::check(declared<Integer>("integer", "-5", Integer(-5)) and declared<UnsignedInteger>("unsignedInt", "5", UnsignedInteger("5")) and declared<UnsignedShort>("unsignedShort", "5", UnsignedShort("5")), "a parameter has the type and value declared");
  verif::check(declared<Double>("double", "2.5", Double("2.5")) and declared<Boolean>("boolean", "true", Boolean(true)), "a parameter has the type and value declared");
  verif::check(declared<String>("string", "a b", String("a b")) and declared<String>("dateTime", "2026-01-01", String("2026-01-01")), "a parameter has the type and value declared");
  verif::check(undeclarable("p", "integer", "1.5") and undeclarable("p", "unsignedInt", "-1") and undeclarable("p", "unsignedShort", "65536") and undeclarable("p", "boolean", "yes") and undeclarable("p", "double", "x"), "rejects a value that is none of the type");
  verif::check(undeclarable("p", "float", "1"), "rejects an unknown type");
  verif::check(undeclarable("OSCp", "string", "1") and undeclarable("OSC", "string", "1"), "rejects a reserved name");
}

VERIF_HARNESS(references_between_declarations, "")
{
  Scope scope(nullptr);
  pugi::xml_document document;
  const auto parent = element(document, "ParameterDeclarations");
  element(parent, "ParameterDeclaration", {{"name", "p"}, {"parameterType", "integer"}, {"value", "12"}});
  element(parent, "ParameterDeclaration", {{"name", "q"}, {"parameterType", "double"}, {"value", "$p"}});
  element(parent, "ParameterDeclaration", {{"name", "r"}, {"parameterType", "string"}, {"value", "$(var p)-$(var q)"}});
  const ParameterDeclarations declarations(parent, scope);
  verif::check(declarations.size() == 3, "reads every declaration");
  verif::check(scope.ref(std::string("q")).as<Double>() == 12, "a declaration can refer to those before it");
  verif::check(scope.ref(std::string("r")).as<String>().substr(0, 5) == "12-12", "a declaration can refer to those before it");
}

// two groups of constraints, the first of two and the second of one
VERIF_HARNESS(constraints, "bounded=two groups of up to two constraints")
{
  Scope scope(nullptr);
  pugi::xml_document document;
  const int value = verif::any<int>("value");
  ParameterDeclaration declaration(declaration_of(document, "p", "integer", "1"), scope);
  const_cast<String &>(declaration.value) = std::to_string(value);
  const auto constraint = [&](const pugi::xml_node & group, const char * rule, const char * bound) { element(group, "ValueConstraint", {{"rule", rule}, {"value", bound}}); };
  const auto groups = verif::any_in("groups", 0, 2);
  if (groups > 0) {
    const auto group = element(document, "ConstraintGroup");
    constraint(group, "greaterOrEqual", "10");
    constraint(group, "lessThan", "20");
    declaration.constraint_groups.emplace_back(group, scope);
  }
  if (groups > 1) {
    const auto group = element(document, "ConstraintGroup");
    constraint(group, "equalTo", "-3");
    declaration.constraint_groups.emplace_back(group, scope);
  }
  Object result;
  const bool refused = rejected([&]() { result = declaration.evaluate(); });
  const bool fits = groups == 0 or (10 <= value and value < 20) or (groups == 2 and value == -3);
  verif::check(refused == not fits, "a value has to meet every constraint of one of the groups");
  if (not refused) verif::check(static_cast<int>(result.as<Integer>()) == value, "constraints leave the value alone");
}

VERIF_HARNESS(constraints_read, "")
{
  const auto constrained = [](const char * value, const char * rule, const char * bound) {
    Scope scope(nullptr);
    pugi::xml_document document;
    const auto node = declaration_of(document, "p", "double", value);
    const auto group = element(node, "ConstraintGroup");
    element(group, "ValueConstraint", {{"rule", rule}, {"value", bound}});
    const bool refused = rejected([&]() { ParameterDeclaration(node, scope); });
    verif::check(refused == rejected([&]() { scope.ref(std::string("p")); }), "a parameter that breaks its constraints is not declared");
    return not refused;
  };
  verif::check(constrained("1.5", "lessThan", "2") and not constrained("2.5", "lessThan", "2"), "the constraints are those of the file");
  verif::check(constrained("2.5", "greaterThan", "2") and not constrained("1.5", "greaterThan", "2"), "the constraints are those of the file");
  Scope scope(nullptr);
  pugi::xml_document document;
  const auto node = declaration_of(document, "p", "double", "1");
  element(node, "ConstraintGroup");
  verif::check(rejected([&]() { ParameterDeclaration(node, scope); }), "a group has at least one constraint");
}
