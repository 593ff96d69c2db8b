// Contract DSL.  The same file is (a) exported to the verifier, which interprets the
// primitives below symbolically, and (b) compiled natively against the real code, where
// any<>() reads the solver's counterexample (replay) or seeded random values (search).
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <limits>
#include <string>
#include <type_traits>
#include <vector>

namespace verif
{
// ---- primitives (intercepted by the verifier; native bodies in native.cpp)
bool any_bool(const char * name);
long long any_int(const char * name, long long lo, long long hi);
unsigned long long any_uint(const char * name, unsigned long long lo, unsigned long long hi);
double any_double(const char * name);  // every double, NaN and infinities included
double any_real(const char * name);    // every finite double
std::string any_string(const char * name);
void assume(bool);                     // precondition; natively discards the input
void check(bool, const char * label);  // postcondition
void cover(const char * label);        // must be reachable (vacuity guard)
void fail(const char * label);         // must be unreachable
bool native();                         // false under the verifier

template <typename T>
T any(const char * name)
{
  if constexpr (std::is_same_v<T, bool>) return any_bool(name);
  else if constexpr (std::is_same_v<T, double>) return any_double(name);
  else if constexpr (std::is_same_v<T, std::string>) return any_string(name);
  else if constexpr (std::is_unsigned_v<T>)
    return static_cast<T>(any_uint(name, std::numeric_limits<T>::min(), std::numeric_limits<T>::max()));
  else
    return static_cast<T>(any_int(name, std::numeric_limits<T>::min(), std::numeric_limits<T>::max()));
}
inline int any_in(const char * name, int lo, int hi) { return static_cast<int>(any_int(name, lo, hi)); }

// a sequence of arbitrary length whose i-th element is gen(i)
std::size_t native_size(const char * name);
template <typename T, typename G>
std::vector<T> any_vector(const char * name, G gen)
{
  std::vector<T> v;
  auto n = native_size(name);
  for (std::size_t i = 0; i < n; ++i) v.push_back(gen(i));
  return v;
}

// bounded quantifiers over [lo, hi): a loop natively, a quantifier for the verifier
template <typename F>
bool forall(std::size_t lo, std::size_t hi, F f)
{
  for (auto i = lo; i < hi; ++i)
    if (!f(i)) return false;
  return true;
}
template <typename F>
bool exists(std::size_t lo, std::size_t hi, F f)
{
  for (auto i = lo; i < hi; ++i)
    if (f(i)) return true;
  return false;
}

// the same double: equal, or both NaN
inline bool same(double a, double b) { return a == b || (a != a && b != b); }

inline bool implies(bool a, bool b) { return !a || b; }
inline bool iff(bool a, bool b) { return a == b; }

// equality of reals: exact where the verifier treats double as a real, relative tolerance natively
bool near(double a, double b);
bool le(double a, double b);  // a <= b, with the same native tolerance

// gives an expression a name: the verifier reasons about the name, and knows what it stands for
inline double name(double x) { return x; }
// a lemma: proved once for all reals, then used for the arguments given
template <typename F, typename... Ts>
void lemma(const char *, F, Ts...) {}

struct Harness
{
  const char * name;
  const char * opts;
  void (*run)();
  Harness * next;
};
extern Harness * harnesses;
struct Register
{
  Harness h;
  Register(const char * n, const char * o, void (*f)()) : h{n, o, f, harnesses} { harnesses = &h; }
};
}  // namespace verif

#ifdef VERIF_NATIVE
#define VERIF_HARNESS(NAME, OPTS)                                      \
  static void verif_h_##NAME();                                        \
  static ::verif::Register verif_r_##NAME(#NAME, OPTS, &verif_h_##NAME); \
  static void verif_h_##NAME()
#else
#define VERIF_HARNESS(NAME, OPTS)                                          \
  __attribute__((annotate("verif_harness:" #NAME ":" OPTS))) void verif_h_##NAME()
#endif
// A contract that stands for the callee TARGET (its object, if it has one, is the first parameter) in the harnesses
// whose options say "with=WHERE"; the body is verified by other harnesses.
#ifdef VERIF_NATIVE
#define VERIF_CONTRACT(TARGET, WHERE)
#else
#define VERIF_CONTRACT(TARGET, WHERE) __attribute__((annotate("verif_contract:" TARGET ":" WHERE)))
#endif
