// Native side of the contract DSL: runs a harness against the real, compiled code either on the
// verifier's counterexample (--replay TAPE HARNESS) or on seeded random inputs (--search HARNESS SEED SECONDS).
// Exit: 0 nothing failed, 1 a check failed or the code crashed (details on stdout), 3 input discarded.
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <chrono>
#include <cstring>
#include <fstream>
#include <iostream>
#include <random>
#include <sstream>
#include <typeinfo>
#include <cxxabi.h>
#include <verif.hpp>

namespace verif
{
Harness * harnesses = nullptr;

namespace
{
struct Discard {};
struct Entry { std::string kind, name, value; };
struct Shared
{
  char status[64];   // running / failed / ...
  char detail[4096];
  char tape[1 << 18];
  unsigned long long runs, discarded;
};
Shared * shared = nullptr;
bool replaying = false;
std::vector<Entry> tape;
std::size_t pos = 0;
std::mt19937_64 rng;
std::vector<std::string> dict;
std::vector<double> ddict;
std::vector<long long> idict;
std::vector<double> seen_d;
std::vector<long long> seen_i;
std::vector<std::string> seen_s;
std::size_t tape_len = 0;

std::string hex(const std::string & s)
{
  static const char * d = "0123456789abcdef";
  std::string r;
  for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
  return r;
}
std::string unhex(const std::string & s)
{
  std::string r;
  for (std::size_t i = 0; i + 1 < s.size(); i += 2) r += static_cast<char>(std::stoi(s.substr(i, 2), nullptr, 16));
  return r;
}
void put(const char * kind, const char * name, const std::string & value)
{
  auto line = std::string(kind) + "\t" + name + "\t" + value + "\n";
  if (tape_len + line.size() + 1 < sizeof(shared->tape)) {
    std::memcpy(shared->tape + tape_len, line.c_str(), line.size() + 1);
    tape_len += line.size();
  }
}
const Entry * next(const char * name)
{
  for (auto i = pos; i < tape.size(); ++i)
    if (tape[i].name == name) {
      if (i == pos) ++pos;
      else { auto e = tape[i]; tape.erase(tape.begin() + i); tape.insert(tape.begin() + pos, e); ++pos; }
      return &tape[pos - 1];
    }
  return nullptr;
}
unsigned long long rnd(unsigned long long n) { return n ? rng() % n : 0; }
std::string dstr(double d)
{
  char b[64];
  std::snprintf(b, sizeof b, "%.17g", d);
  return b;
}
[[noreturn]] void failed(const std::string & kind, const std::string & what)
{
  std::snprintf(shared->status, sizeof shared->status, "%s", kind.c_str());
  std::snprintf(shared->detail, sizeof shared->detail, "%s", what.c_str());
  _exit(1);
}
long long near(long long v) { return static_cast<long long>(static_cast<unsigned long long>(v) + rnd(3) - 1ull); }
long long gen_int(long long lo, long long hi)
{
  long long v;
  switch (rnd(7)) {
    case 6: v = idict.empty() ? 0 : near(idict[rnd(idict.size())]); break;
    case 0: v = lo; break;
    case 1: v = hi; break;
    case 2: v = static_cast<long long>(rnd(7)) - 2; break;
    case 3: v = seen_i.empty() ? 0 : near(seen_i[rnd(seen_i.size())]); break;
    case 4: v = static_cast<long long>(rnd(200)) - 100; break;
    default: v = static_cast<long long>(rng()); break;
  }
  if (v < lo || v > hi) {
    auto span = static_cast<unsigned long long>(hi) - static_cast<unsigned long long>(lo) + 1ull;
    v = span ? lo + static_cast<long long>(rnd(span)) : static_cast<long long>(rng());
  }
  return v;
}
bool moderate = false;
double gen_double(bool finite)
{
  static const double special[] = {0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 1e-9, -1e-9, 1e-16, 1e-300, 1e300, -1e300, 2.2250738585072014e-308,
    4.9e-324, 1.7976931348623157e308, -1.7976931348623157e308, 2147483647.0, 2147483648.0, -2147483648.0, 3.14159265358979, 1.5707963267948966};
  for (;;) {
    double v = 0;
    switch (rnd(9)) {
      case 0: v = special[rnd(sizeof special / sizeof *special)]; break;
      case 1: { static const double nf[] = {INFINITY, -INFINITY, NAN}; v = nf[rnd(3)]; break; }
      case 2: v = static_cast<double>(static_cast<long long>(rnd(21)) - 10); break;
      case 3:
        if (!seen_d.empty()) {
          v = seen_d[rnd(seen_d.size())];
          switch (rnd(6)) {
            case 0: v = std::nextafter(v, INFINITY); break;
            case 1: v = std::nextafter(v, -INFINITY); break;
            case 2: v += 1e-16; break;
            case 3: v = -v; break;
            case 4: v += 1; break;
          }
        }
        break;
      case 4: v = (static_cast<double>(rnd(2000001)) - 1000000) / 100000.0; break;
      case 5: v = (static_cast<double>(rnd(2000001)) - 1000000) / 1000.0; break;
      case 6: { auto b = rng(); std::memcpy(&v, &b, 8); break; }
      case 7: v = ddict.empty() ? 0.25 * static_cast<double>(rnd(40)) : ddict[rnd(ddict.size())] + (rnd(2) ? 0 : 0.5 * (static_cast<double>(rnd(3)) - 1)); break;
      default: v = static_cast<double>(rnd(1000)) / 1000.0; break;
    }
    if (finite && !std::isfinite(v)) continue;
    if (moderate) {
      // harnesses over the reals: values on which rounding cannot tip a comparison by accident
      if (!(std::abs(v) <= 1e6)) continue;
      v = std::round(v * 1024) / 1024;
    }
    return v;
  }
}
static const std::string & pick_word()
{
  static std::vector<std::string> words, rest;
  if (words.empty()) {
    words.push_back("");
    for (auto & w : dict) (w.size() <= 24 ? words : rest).push_back(w);
  }
  return !rest.empty() && rnd(12) == 0 ? rest[rnd(rest.size())] : words[rnd(words.size())];
}
std::string gen_string()
{
  static const char alpha[] = "abcXYZ019 .,:-+_/\\{}()\"'<>&";
  std::string s;
  switch (rnd(10)) {
    case 0: s = ""; break;
    case 1: case 2: case 3: s = pick_word(); break;
    case 4: if (!seen_s.empty()) s = seen_s[rnd(seen_s.size())]; break;
    case 5: case 6: {
        s = !seen_s.empty() && rnd(3) == 0 ? seen_s[rnd(seen_s.size())] : pick_word();
        switch (rnd(9)) {
          case 0: s += " "; break;
          case 1: s = " " + s; break;
          case 2: if (!s.empty()) s.pop_back(); break;
          case 3: s += alpha[rnd(sizeof alpha - 1)]; break;
          case 4: if (!s.empty()) s[rnd(s.size())] ^= 0x20; break;
          case 5: s = alpha[rnd(sizeof alpha - 1)] + s; break;
          case 6: s += pick_word(); break;
          case 7: if (!s.empty()) s.erase(rnd(s.size()), 1); break;
          case 8: s.insert(rnd(s.size() + 1), 1, alpha[rnd(sizeof alpha - 1)]); break;
        }
      } break;
    case 7: s = dstr(gen_double(false)); break;
    case 8: {
        auto n = rnd(5);
        for (unsigned i = 0; i < n; ++i) { if (i) s += alpha[rnd(sizeof alpha - 1)]; s += pick_word(); }
      } break;
    default: {
        auto n = rnd(6);
        for (unsigned i = 0; i < n; ++i) s += alpha[rnd(sizeof alpha - 1)];
      }
  }
  return s;
}
void run_one(Harness * h)
{
  tape_len = 0;
  shared->tape[0] = 0;
  seen_d.clear(); seen_i.clear(); seen_s.clear();
  std::strcpy(shared->status, "running");
  ++shared->runs;
  try {
    h->run();
  } catch (const Discard &) {
    ++shared->discarded;
    if (replaying) std::strcpy(shared->status, "discarded");
    return;
  } catch (const std::exception & e) {
    int st = 0;
    auto * n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
    failed("failed", std::string("no exception escapes: ") + (n ? n : "?") + ": " + e.what());
  } catch (...) {
    failed("failed", "no exception escapes: unknown exception");
  }
  std::strcpy(shared->status, "ok");
}
}  // namespace

bool any_bool(const char * name)
{
  bool v = false;
  if (replaying) { if (auto * e = next(name)) v = e->value == "1"; }
  else v = rnd(2);
  put("bool", name, v ? "1" : "0");
  return v;
}
long long any_int(const char * name, long long lo, long long hi)
{
  long long v = lo <= 0 && 0 <= hi ? 0 : lo;
  if (replaying) { if (auto * e = next(name)) v = static_cast<long long>(std::stoll(e->value)); }
  else v = gen_int(lo, hi);
  seen_i.push_back(v);
  put("int", name, std::to_string(v));
  if (v < lo || v > hi) throw Discard();
  return v;
}
unsigned long long any_uint(const char * name, unsigned long long lo, unsigned long long hi)
{
  unsigned long long v = lo;
  if (replaying) { if (auto * e = next(name)) v = std::stoull(e->value); }
  else {
    switch (rnd(4)) {
      case 0: v = lo; break;
      case 1: v = hi; break;
      case 2: v = rnd(8); break;
      default: v = rng(); break;
    }
    if (v < lo || v > hi) v = hi - lo == ~0ull ? rng() : lo + rnd(hi - lo + 1);
  }
  put("int", name, std::to_string(v));
  if (v < lo || v > hi) throw Discard();
  return v;
}
double any_double(const char * name)
{
  double v = 0;
  if (replaying) { if (auto * e = next(name)) v = std::strtod(e->value.c_str(), nullptr); }
  else v = gen_double(false);
  seen_d.push_back(v);
  put("double", name, dstr(v));
  return v;
}
double any_real(const char * name)
{
  double v = 0;
  if (replaying) { if (auto * e = next(name)) v = std::strtod(e->value.c_str(), nullptr); }
  else v = gen_double(true);
  seen_d.push_back(v);
  put("double", name, dstr(v));
  return v;
}
std::string any_string(const char * name)
{
  std::string v;
  if (replaying) { if (auto * e = next(name)) v = unhex(e->value); }
  else v = gen_string();
  seen_s.push_back(v);
  put("string", name, hex(v));
  return v;
}
std::size_t native_size(const char * name)
{
  std::size_t v = 0;
  if (replaying) { if (auto * e = next(name)) v = std::stoull(e->value); }
  else v = rnd(5);
  put("size", name, std::to_string(v));
  if (v > 100000) throw Discard();
  return v;
}
void assume(bool b) { if (!b) throw Discard(); }
void check(bool b, const char * label) { if (!b) failed("failed", label); }
void cover(const char *) {}
void fail(const char * label) { failed("failed", label); }
bool native() { return true; }
static bool tol(double a, double b) { return std::abs(a - b) <= 1e-6 * std::max({1.0, std::abs(a), std::abs(b)}); }
bool near(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)) || tol(a, b); }
bool le(double a, double b) { return a <= b || tol(a, b); }
}  // namespace verif

using namespace verif;

static int child(Harness * h, unsigned long long seed, unsigned n)
{
  auto pid = fork();
  if (pid == 0) {
    alarm(replaying ? 60 : 60);
    rng.seed(seed);
    for (unsigned i = 0; i < n; ++i) run_one(h);
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  return st;
}

static int outcome(int st)
{
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
  if (std::strcmp(shared->status, "failed") == 0) {
    std::cout << "FAILED " << shared->detail << "\n" << "TAPE\n" << shared->tape << "END\n";
    return 1;
  }
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)
    std::cout << "FAILED no end: the call does not return\n";
  else if (WIFSIGNALED(st))
    std::cout << "FAILED crash: signal " << WTERMSIG(st) << "\n";
  else
    std::cout << "FAILED crash: sanitizer or exit, status " << WEXITSTATUS(st) << "\n";
  std::cout << "TAPE\n" << shared->tape << "END\n";
  return 1;
}

int main(int argc, char ** argv)
{
  shared = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (argc >= 4 && std::string(argv[1]) == "--replay") {
    replaying = true;
    std::ifstream in(argv[2]);
    std::string line;
    while (std::getline(in, line)) {
      std::istringstream ls(line);
      Entry e;
      std::getline(ls, e.kind, '\t');
      std::getline(ls, e.name, '\t');
      std::getline(ls, e.value, '\t');
      tape.push_back(e);
    }
    for (auto * h = harnesses; h; h = h->next)
      if (h->name == std::string(argv[3])) {
        auto r = outcome(child(h, 1, 1));
        if (r == 0 && std::strcmp(shared->status, "discarded") == 0) { std::cout << "DISCARDED\n"; return 3; }
        if (r == 0) std::cout << "HELD\n";
        return r;
      }
    return 4;
  }
  if (argc >= 5 && std::string(argv[1]) == "--search") {
    if (auto * f = std::getenv("VERIF_DICT")) {
      std::ifstream in(f);
      std::string line;
      while (std::getline(in, line)) {
        if (line.rfind("s ", 0) == 0) dict.push_back(unhex(line.substr(2)));
        if (line.rfind("i ", 0) == 0) idict.push_back(std::strtoll(line.c_str() + 2, nullptr, 10));
        if (line.rfind("d ", 0) == 0) ddict.push_back(std::strtod(line.c_str() + 2, nullptr));
      }
    }
    auto seed = std::strtoull(argv[3], nullptr, 10) * 1000003ull;
    auto secs = std::strtod(argv[4], nullptr);
    auto t0 = std::chrono::steady_clock::now();
    for (auto * h = harnesses; h; h = h->next)
      if (h->name == std::string(argv[2])) {
        moderate = std::string(h->opts).find("real") != std::string::npos;
        unsigned n = 50;
        while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs) {
          auto before = std::chrono::steady_clock::now();
          if (auto r = outcome(child(h, ++seed, n))) return r;
          auto dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - before).count();
          if (dt < 0.3 && n < 1000000) n *= 2;
        }
        std::cout << "HELD runs " << shared->runs << " discarded " << shared->discarded << "\n";
        return 0;
      }
    return 4;
  }
  for (auto * h = harnesses; h; h = h->next) std::cout << h->name << "\t" << h->opts << "\n";
}
