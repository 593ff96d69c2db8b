// Contracts of the interpreter's generic building blocks: which entities trigger a condition
// (syntax/triggering_entities_rule), cyclic iteration (iterator/circular_iterator), detection of circular
// definitions (utility/circular_check), printing of collections (utility/print), splitting of text (string/split),
// and the functional helpers.
#include <verif.hpp>

#include <cstdint>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <list>
#include <map>
#include <sstream>
#include <string>
#include <tuple>
#include <unordered_map>
#include <vector>

#include <boost/algorithm/string.hpp>
#include <openscenario_interpreter/functional/curry.hpp>
#include <openscenario_interpreter/functional/fold.hpp>
#include <openscenario_interpreter/iterator/circular_iterator.hpp>
#include <openscenario_interpreter/iterator/size.hpp>
#include <openscenario_interpreter/string/split.hpp>
#include <openscenario_interpreter/syntax/triggering_entities_rule.hpp>
#include <openscenario_interpreter/utility/circular_check.hpp>
#include <openscenario_interpreter/utility/overload.hpp>
#include <openscenario_interpreter/utility/print.hpp>

using namespace openscenario_interpreter;

// ---- triggering entities
static TriggeringEntitiesRule rule(TriggeringEntitiesRule::value_type v)
{
  TriggeringEntitiesRule r;
  r.value = v;
  return r;
}

VERIF_HARNESS(triggering_entities, "")
{
  const auto speeds = verif::any_vector<double>("speeds", [](auto) { return verif::any<double>("speed"); });
  const auto limit = verif::any<double>("limit");
  const auto holds = [&](const double & speed) { return speed > limit; };
  const auto every = verif::forall(0, speeds.size(), [&](std::size_t i) { return speeds[i] > limit; });
  const auto some = verif::exists(0, speeds.size(), [&](std::size_t i) { return speeds[i] > limit; });
  verif::check(rule(TriggeringEntitiesRule::all).apply(speeds.begin(), speeds.end(), holds) == every, "all: every entity satisfies the condition");
  verif::check(rule(TriggeringEntitiesRule::any).apply(speeds.begin(), speeds.end(), holds) == some, "any: some entity satisfies the condition");
  verif::check(rule(TriggeringEntitiesRule::none).apply(speeds.begin(), speeds.end(), holds) == not some, "none: no entity satisfies the condition");
}

// entities are asked in order, each at most once
VERIF_HARNESS(triggering_order, "maxlen=3")
{
  const auto answers = verif::any_vector<bool>("answers", [](auto) { return verif::any<bool>("answer"); });
  std::vector<std::size_t> order;
  for (std::size_t i = 0; i < answers.size(); ++i) order.push_back(i);
  const auto kind = verif::any_in("rule", 0, 2);
  std::size_t asked = 0;
  auto in_order = true, every = true, some = false;
  const auto result = rule(static_cast<TriggeringEntitiesRule::value_type>(kind)).apply(order.begin(), order.end(), [&](std::size_t i) {
    in_order = in_order and i == asked;
    ++asked;
    return answers[i] ? true : false;
  });
  for (std::size_t i = 0; i < answers.size(); ++i) {
    every = every and answers[i];
    some = some or answers[i];
  }
  verif::check(in_order and asked <= answers.size(), "entities are asked in order, at most once each");
  verif::check(result == (kind == TriggeringEntitiesRule::all ? every : kind == TriggeringEntitiesRule::any ? some : not some), "the rule decides");
}

// ---- circular iterator
VERIF_HARNESS(circular_next, "")
{
  auto items = verif::any_vector<int>("items", [](auto) { return verif::any<int>("item"); });
  verif::assume(not items.empty());
  const auto at = verif::any<std::uint32_t>("at"), size = static_cast<std::uint32_t>(items.size());
  verif::assume(items.size() <= 1000000 and at <= size);
  CircularIterator<std::vector<int>> i(items.begin(), items.end(), items.begin() + at);
  const auto first = items.begin();
  if (at < size) verif::check(&*i == &items[at], "is at the element it was placed at");
  const auto next = at + 1 < size ? at + 1 : 0;
  ++i;
  verif::check(static_cast<std::vector<int>::iterator>(i) == first + next, "moves to the next element, from the last one to the first");
  i++;
  verif::check(static_cast<std::vector<int>::iterator>(i) == first + (next + 1 < size ? next + 1 : 0), "post-increment does the same");
  const auto old = i++;
  verif::check(static_cast<std::vector<int>::const_iterator>(old) == first + (next + 1 < size ? next + 1 : 0), "post-increment yields the old position");
  i = first;
  verif::check(static_cast<std::vector<int>::iterator>(i) == first, "takes the position assigned");
}

// ---- circular definitions
static bool reaches(const bool (&edge)[3][3], int from, int to)  // by one or more steps between different nodes
{
  bool r[3][3];
  for (auto a = 0; a < 3; ++a)
    for (auto b = 0; b < 3; ++b) r[a][b] = a != b and edge[a][b];
  for (auto k = 0; k < 3; ++k)
    for (auto a = 0; a < 3; ++a)
      for (auto b = 0; b < 3; ++b) r[a][b] = r[a][b] or (r[a][k] and r[k][b]);
  return r[from][to];
}

VERIF_HARNESS(circular_definitions, "maxlen=3")
{
  bool edge[3][3];
  for (auto & row : edge)
    for (auto & e : row) e = verif::any<bool>("edge");
  const auto children = [&](int node) {
    std::vector<int> result;
    for (auto i = 0; i < 3; ++i)
      if (edge[node][i]) result.push_back(i);
    return result;
  };
  auto circular = false;
  for (auto i = 0; i < 3; ++i) circular = circular or ((i == 0 or reaches(edge, 0, i)) and reaches(edge, i, i));
  verif::check(circular_check(0, children) == circular, "detects exactly a cycle that can be reached");
}

// ---- printing
VERIF_HARNESS(printing, "")
{
  const auto a = verif::any<int>("a"), b = verif::any<int>("b"), c = verif::any<int>("c");
  const auto text = [](const auto & x) {
    std::ostringstream os;
    print_to(os, x);
    return os.str();
  };
  const auto s = [](int x) { return std::to_string(x); };
  verif::check(text(a) == s(a), "prints a single value");
  verif::check(text(std::vector<int>{}) == "[]", "prints no value");
  verif::check(text(std::vector<int>{a}) == "[" + s(a) + "]", "prints one value");
  verif::check(text(std::vector<int>{a, b, c}) == "[" + s(a) + ", " + s(b) + ", " + s(c) + "]", "prints every value in order");
  verif::check(text(std::vector<std::vector<int>>{{a, b}, {}, {c}}) == "[[" + s(a) + ", " + s(b) + "], [], [" + s(c) + "]]", "prints nested values");
}

VERIF_HARNESS(printing_keys, "")
{
  const auto a = verif::any<std::string>("a"), b = verif::any<std::string>("b"), c = verif::any<std::string>("c");
  const auto text = [](const auto & x) {
    std::ostringstream os;
    print_keys_to(os, x);
    return os.str();
  };
  using T = std::vector<std::tuple<std::string, int>>;
  verif::check(text(T{}) == "", "prints no key");
  verif::check(text(T{{a, 1}}) == a, "prints one key");
  verif::check(text(T{{a, 1}, {b, 2}}) == a + " and " + b, "joins two keys");
  verif::check(text(T{{a, 1}, {b, 2}, {c, 3}}) == a + ", " + b + " and " + c, "joins more keys");
}

// ---- text
VERIF_HARNESS(splitting, "maxlen=4")
{
  // words of one letter, separated by blanks: every blank separates
  std::string target;
  std::vector<std::string> expected{""};
  const auto n = verif::any_in("n", 0, 4);
  for (auto i = 0; i < n; ++i) {
    switch (verif::any_in("c", 0, 4)) {
      case 0: target += ' '; expected.push_back(""); break;
      case 1: target += '\t'; expected.push_back(""); break;
      case 2: target += '\n'; expected.push_back(""); break;
      case 3: target += 'a'; expected.back() += 'a'; break;
      default: target += ','; expected.back() += ','; break;
    }
  }
  verif::check(openscenario_interpreter::split(target) == expected, "splits at every blank, and nowhere else");
}

// ---- functional
VERIF_HARNESS(functional, "")
{
  const auto a = verif::any_in("a", -1000, 1000), b = verif::any_in("b", -1000, 1000), c = verif::any_in("c", -1000, 1000);
  const auto minus = [](int x, int y) { return x - y; };
  verif::check(openscenario_interpreter::fold_left(minus, a) == a and openscenario_interpreter::fold_right(minus, a) == a, "folds one value to itself");
  verif::check(openscenario_interpreter::fold_left(minus, a, b, c) == (a - b) - c, "folds from the left");
  verif::check(openscenario_interpreter::fold_right(minus, a, b, c) == a - (b - c), "folds from the right");
  verif::check(openscenario_interpreter::fold(minus, a, b, c) == (a - b) - c, "fold is from the left");
  verif::check(curry2(minus)(a)(b) == a - b, "applies to both arguments in order");
  const auto f = overload([](int) { return 1; }, [](const std::string &) { return 2; }, [](double) { return 3; });
  verif::check(f(a) == 1 and f(std::string()) == 2 and f(0.5) == 3, "an overload set calls the function of the argument's type");
  verif::check(openscenario_interpreter::size(std::list<int>{a, b, c}) == 3 and openscenario_interpreter::size(std::list<int>{}) == 0, "size counts the elements");
}

// larger definitions: searched on the compiled code
VERIF_HARNESS(circular_definitions_large, "native")
{
  const auto n = verif::any_in("n", 1, 6), m = verif::any_in("m", 0, 10);
  bool edge[6][6] = {}, reach[6][6] = {};
  for (auto i = 0; i < m; ++i) edge[verif::any_in("from", 0, n - 1)][verif::any_in("to", 0, n - 1)] = true;
  for (auto a = 0; a < n; ++a)
    for (auto b = 0; b < n; ++b) reach[a][b] = a != b and edge[a][b];
  for (auto k = 0; k < n; ++k)
    for (auto a = 0; a < n; ++a)
      for (auto b = 0; b < n; ++b) reach[a][b] = reach[a][b] or (reach[a][k] and reach[k][b]);
  auto circular = false;
  for (auto i = 0; i < n; ++i) circular = circular or ((i == 0 or reach[0][i]) and reach[i][i]);
  verif::check(circular_check(0, [&](int node) {
    std::vector<int> result;
    for (auto i = 0; i < n; ++i)
      if (edge[node][i]) result.push_back(i);
    return result;
  }) == circular, "detects exactly a cycle that can be reached");
}
