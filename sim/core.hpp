// Deterministic simulation core: seeded plans, isolated execution, gating,
// minimisation, replay and evidence.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace sim {

inline uint64_t
splitmix(uint64_t& x)
{
  uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

/// xoshiro256**: the only source of choices in a run.
struct Rng
{
  uint64_t s[4];
  explicit Rng(uint64_t seed)
  {
    for (auto& v : s)
      v = splitmix(seed);
  }
  static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  uint64_t next()
  {
    uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = rotl(s[3], 45);
    return r;
  }
  /// uniform in [0, n)
  uint64_t below(uint64_t n) { return n == 0 ? 0 : (uint64_t)(((unsigned __int128)next() * n) >> 64); }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
  bool chance(double p) { return (double)(next() >> 11) * 0x1p-53 < p; }
  double unit() { return (double)(next() >> 11) * 0x1p-53; }
  template<class T>
  const T& pick(const std::vector<T>& v)
  {
    return v[below(v.size())];
  }
};

inline int64_t
dbits(double d)
{
  int64_t r;
  memcpy(&r, &d, 8);
  return r;
}
inline double
bitsd(int64_t i)
{
  double r;
  memcpy(&r, &i, 8);
  return r;
}

struct Step
{
  std::string op;
  std::vector<int64_t> a;
  int64_t at(size_t i, int64_t dflt = 0) const { return i < a.size() ? a[i] : dflt; }
};

/// An explicit, self-contained schedule of operations and faults.
struct Plan
{
  std::vector<int64_t> cfg;
  std::vector<Step> steps;
  int64_t c(size_t i, int64_t dflt = 0) const { return i < cfg.size() ? cfg[i] : dflt; }
  void add(std::string op, std::vector<int64_t> a = {}) { steps.push_back({ std::move(op), std::move(a) }); }
};

struct Violation
{
  std::string cls, msg;
};

struct Shared; // per-worker shared memory

/// One execution of a plan.
class Run
{
public:
  Shared* sh = nullptr;
  bool verbose = false;
  uint64_t events = 0;

  void log(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  void mix(uint64_t v);
  void mixd(double d) { mix((uint64_t)dbits(d)); }
  void mixs(const std::string& s);
  [[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
  /// a fault actually fired
  void fault(const char* kind, uint64_t n = 1);
  /// a rare condition was reached
  void probe(const char* name, uint64_t n = 1);
  /// an abstract state / interleaving was reached
  void state(uint64_t h);
  /// this run counts as non-trivial
  void nontrivial();
  uint64_t hash() const;
};

struct CheckDef
{
  const char* property = "";
  const char* rule = "";
  const char* state_measure = "";
  std::vector<std::string> real, stub, assumptions, must_fire;
  uint64_t quick_runs = 1000, thorough_runs = 10000;
  double quick_cap_s = 240, thorough_cap_s = 3000;
  Plan (*generate)(Rng&, bool thorough) = nullptr;
  void (*execute)(const Plan&, Run&) = nullptr;
};

/// Defined by each check.
const CheckDef&
check();

/// 64-bit mixing for state hashes
inline uint64_t
hmix(uint64_t h, uint64_t v)
{
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  return h ^ (h >> 32);
}
inline uint64_t
hstr(const std::string& s)
{
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s)
    h = (h ^ c) * 1099511628211ULL;
  return h;
}

} // namespace sim
