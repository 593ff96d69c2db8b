// Contracts of names and scopes: name.hpp, scope.hpp, scope.cpp.
#include "interpreter.hpp"

#include <openscenario_interpreter/scope.hpp>
#include <openscenario_interpreter/syntax/boolean.hpp>
#include <openscenario_interpreter/syntax/double.hpp>
#undef private
#undef protected

#include <common/scenario_simulator_exception/src/scenario_simulator_exception.cpp>
#include <openscenario/openscenario_interpreter/src/object.cpp>
#include <openscenario/openscenario_interpreter/src/scope.cpp>
#include <openscenario/openscenario_interpreter/src/utility/demangle.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/boolean.cpp>
#include <openscenario/openscenario_interpreter/src/syntax/double.cpp>

using namespace openscenario_interpreter;

VERIF_HARNESS(names, "cover=rejected,cover=accepted")
{
  const auto text = verif::any<std::string>("text");
  verif::assume(text.find('\0') == std::string::npos);
  bool accepted = false;
  try {
    const Name name(text);
    accepted = true;
    verif::check(name == text, "a name is its text");
  } catch (const common::SyntaxError &) {
  }
  if (accepted)
    verif::cover("accepted");
  else
    verif::cover("rejected");
  verif::check(accepted == (text.find(":") == std::string::npos), "a name contains no colon");
}

VERIF_HARNESS(prefixes, "bounded=texts of up to seven characters,cover=absolute,cover=relative,cover=invalid")
{
  const auto length = verif::any<int>("length");
  verif::assume(0 <= length and length <= 7);
  std::string text;
  std::vector<std::string> parts(1);  // cut at every pair of colons, from the left
  bool colon = false;
  for (int i = 0; i < length; ++i) {
    const char c = verif::any<bool>("colon") ? ':' : static_cast<char>('a' + i);
    text += c;
    if (c == ':' and colon) {
      parts.back().pop_back();
      parts.emplace_back();
      colon = false;
    } else {
      parts.back() += c;
      colon = c == ':';
    }
  }
  const bool valid = parts.back().find(':') == std::string::npos;
  bool accepted = false;
  try {
    const Prefixed<Name> reference(text);
    accepted = true;
    const bool absolute = parts.size() > 1 and parts.front().empty();
    verif::check(reference.absolute == absolute, "a leading separator makes the reference absolute");
    if (absolute)
      verif::cover("absolute");
    else
      verif::cover("relative");
    verif::check(reference.name == parts.back(), "the name is what follows the last separator");
    if (parts.size() > 1) {
      const std::vector<std::string> prefixes(parts.begin() + (absolute ? 1 : 0), parts.end() - 1);
      verif::check(reference.prefixes.size() == prefixes.size() and std::equal(prefixes.begin(), prefixes.end(), reference.prefixes.begin()), "the prefixes are what the separators enclose, in order");
      if (not prefixes.empty()) {
        const auto rest = reference.strip<1>();
        verif::check(not rest.absolute and rest.name == parts.back() and rest.prefixes.size() == prefixes.size() - 1 and std::equal(prefixes.begin() + 1, prefixes.end(), rest.prefixes.begin()), "a prefix is stripped from the front");
      }
    }
  } catch (const common::SyntaxError &) {
  }
  if (not valid) verif::cover("invalid");
  verif::check(accepted == valid, "the name contains no colon");
}

namespace
{
// what is found: the number of the declaration, -1 when nothing is, -2 when several are
template <typename F>
auto outcome(F f) -> int
{
  try {
    return static_cast<int>(static_cast<double>(f()));
  } catch (const common::SyntaxError & error) {
    const std::string what = error.what();
    return what.find("Ambiguous") != std::string::npos or what.find("multiple") != std::string::npos ? -2 : -1;
  }
}

auto declare(Scope & scope, int number) -> bool
{
  const auto declared = verif::any<bool>("declared");
  if (declared) scope.insert("x", make<Double>(number));
  return declared;
}
}  // namespace

// a name is looked for in the scope and the nameless scopes inside it, the nearest first, and then outwards
VERIF_HARNESS(unprefixed, "bounded=scopes nested three deep,cover=found,cover=missing,cover=ambiguous")
{
  Scope root(nullptr), outer("outer", root), inner("inner", outer);
  Scope nameless("", outer), nested("", nameless), beside("", inner), hidden("hidden", inner), hidden_nameless("", hidden);
  const bool in_root = declare(root, 1), in_outer = declare(outer, 2), in_inner = declare(inner, 3);
  const bool in_nameless = declare(nameless, 4), in_nested = declare(nested, 5), in_beside = declare(beside, 6);
  declare(hidden, 7);
  declare(hidden_nameless, 8);
  const bool twice = verif::any<bool>("twice");
  if (twice) inner.insert("x", make<Double>(9));
  if (verif::any<bool>("other type")) inner.insert("x", make<Boolean>(true));
  inner.insert("y", make<Double>(10));
  int expected = -1;
  if (in_inner or twice)
    expected = in_inner and twice ? -2 : in_inner ? 3 : 9;
  else if (in_beside)
    expected = 6;
  else if (in_outer)
    expected = 2;
  else if (in_nameless)
    expected = 4;
  else if (in_nested)
    expected = 5;
  else if (in_root)
    expected = 1;
  if (expected > 0)
    verif::cover("found");
  else if (expected == -1)
    verif::cover("missing");
  else
    verif::cover("ambiguous");
  verif::check(outcome([&]() -> double { return inner.ref<Double>(std::string("x")); }) == expected, "finds the nearest declaration of the type asked for, or none, or reports that several are as near");
  if (in_inner and not twice) verif::check(inner.ref<Double>(std::string("x")) == 3, "gives its value");
}

// a prefix names a scope beside the present one or, where there is none, beside one around it
VERIF_HARNESS(prefixed, "bounded=scopes nested three deep,cover=found,cover=missing,cover=ambiguous,cover=absolute")
{
  Scope root(nullptr), outer("outer", root), inner("inner", outer), nameless("", outer), other("", outer);
  std::vector<Scope> scopes;
  const bool beside = verif::any<bool>("beside"), twice = verif::any<bool>("twice"), hidden = verif::any<bool>("hidden"), also = verif::any<bool>("also"), above = verif::any<bool>("above");
  bool in_beside = false, in_twice = false, in_hidden = false, in_also = false, in_above = false;
  declare(root, 1);
  declare(inner, 2);
  if (beside) scopes.emplace_back("there", outer), in_beside = declare(scopes.back(), 3);
  if (twice) scopes.emplace_back("there", outer), in_twice = declare(scopes.back(), 4);
  if (hidden) scopes.emplace_back("there", nameless), in_hidden = declare(scopes.back(), 5);
  if (also) scopes.emplace_back("there", other), in_also = declare(scopes.back(), 7);
  if (above) scopes.emplace_back("there", root), in_above = declare(scopes.back(), 6);
  int expected = -1;
  // a scope that does not declare the name gives way to what is declared around it
  if (beside and twice)
    expected = -2;
  else if (beside or twice)
    expected = beside ? (in_beside ? 3 : 0) : (in_twice ? 4 : 0);
  else if (hidden and also)
    expected = -2;
  else if (hidden or also)
    expected = hidden ? (in_hidden ? 5 : 0) : (in_also ? 7 : 0);
  else if (above)
    expected = in_above ? 6 : 0;
  if (expected != 0) {
    if (expected > 0)
      verif::cover("found");
    else if (expected == -1)
      verif::cover("missing");
    else
      verif::cover("ambiguous");
    verif::check(outcome([&]() -> double { return inner.ref<Double>(std::string("there::x")); }) == expected, "finds the declaration in the nearest scope of that name, or none, or reports that several scopes are as near");
  }
  if (above and in_above) {
    verif::cover("absolute");
    verif::check(outcome([&]() -> double { return inner.ref<Double>(std::string("::there::x")); }) == 6, "an absolute reference starts at the outermost scope");
    verif::check(outcome([&]() -> double { return root.ref<Double>(std::string("there::x")); }) == 6, "the outermost scope sees the scopes in it");
  }
}

VERIF_HARNESS(chains, "")
{
  Scope root(nullptr), board("Storyboard", root), story("story", board), act("act", story), group("group", act), first("first", group), second("second", group);
  root.insert("cmd", make<Double>(0));
  first.insert("cmd", make<Double>(1));
  second.insert("cmd", make<Double>(2));
  Scope event("event", second), action("action", event);
  auto number = [&](const std::string & reference) { return outcome([&]() -> double { return action.ref<Double>(reference); }); };
  verif::check(number("cmd") == 2, "the nearest declaration is meant");
  verif::check(number("second::cmd") == 2 and number("first::cmd") == 1, "a prefix chooses the scope");
  verif::check(number("::cmd") == 0, "an absolute name is that of the outermost scope");
  verif::check(number("story::act::group::first::cmd") == 1 and number("group::first::cmd") == 1, "a chain of prefixes is followed inwards");
  verif::check(number("::Storyboard::story::act::group::first::cmd") == 1, "an absolute chain starts at the outermost scope");
  verif::check(number("third::cmd") == -1 and number("::third::cmd") == -1 and number("other") == -1, "what is not declared is not found");
}
