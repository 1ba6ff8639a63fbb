// C05: a histogram never loses, invents or misplaces a measurement.
#include "common.hpp"
#include <bwsl/HistAccumulator.hpp>

using namespace chk;
using bwsl::HistAccumulator;

namespace {

struct Bin : std::vector<double>
{
  uint64_t zeros = 0; // absorbed before
};
struct Model
{
  std::vector<Bin> bins;
  uint64_t total = 0;
};

void
verify(Run& r, const HistAccumulator& h, const Model& m, int slot, const char* when, uint64_t pick)
{
  if (h.GetNbins() != m.bins.size())
    r.fail("bins", "slot %d %s: %zu bins, expected %zu", slot, when, h.GetNbins(), m.bins.size());
  if (h.GetCount() != m.total)
    r.fail("count", "slot %d %s: total count %zu, expected %llu", slot, when, h.GetCount(), (unsigned long long)m.total);
  r.mix(m.total);
  auto all = h.GetResults();
  if (all.size() != m.bins.size())
    r.fail("bins", "slot %d %s: GetResults() has %zu entries for %zu bins", slot, when, all.size(), m.bins.size());
  for (size_t i = 0; i < m.bins.size(); i++) {
    auto& b = m.bins[i];
    if (h.GetCount(i) != b.size() + b.zeros)
      r.fail("count", "slot %d %s: bin %zu counts %zu, expected %zu", slot, when, i, h.GetCount(i), b.size() + b.zeros);
    quad s = 0, sa = 0, n = (quad)b.size();
    for (double x : b) {
      s += x;
      sa += std::fabs(x);
    }
    double got = h.GetResult(i);
    r.mixd(got);
    if (!std::isfinite((double)sa)) {
      // an infinity or NaN stays in its bin
      if (std::isfinite(got))
        r.fail("result", "slot %d %s: bin %zu is %.17g although not all its values are finite", slot, when, i, got);
      if (!same(all[i], got))
        r.fail("result", "slot %d %s: GetResults()[%zu] is %.17g but GetResult(%zu) is %.17g", slot, when, i, all[i], i, got);
      continue;
    }
    quad want = b.empty() ? (quad)0 : s / (quad)m.total;
    quad tol = b.empty() ? (quad)0 : (1.01 * kU * qabs(s) + 2 * n * n * (quad)kU * kU * sa) / (quad)m.total * (1 + 4 * kU) + 2 * kU * qabs(want) + 1e-300;
    if (!within(got, want, tol))
      r.fail("result", "slot %d %s: bin %zu is %.17g, exact %.17g", slot, when, i, got, (double)want);
    if (!same(all[i], got))
      r.fail("result", "slot %d %s: GetResults()[%zu] is %.17g but GetResult(%zu) is %.17g", slot, when, i, all[i], i, got);
  }
  if (!m.bins.empty()) {
    size_t k = pick % m.bins.size();
    auto norm = h.GetResults(k);
    if (norm.size() != m.bins.size())
      r.fail("bins", "slot %d %s: GetResults(%zu) has %zu entries", slot, when, k, norm.size());
    double den = h.GetResult(k);
    for (size_t i = 0; i < norm.size(); i++) {
      double want = h.GetResult(i) / den;
      if (std::isfinite(want) && std::fabs(den) > 1e-200 && !(std::fabs(norm[i] - want) <= 4 * kU * std::fabs(want)))
        r.fail("normalised", "slot %d %s: GetResults(%zu)[%zu] is %.17g, expected %.17g", slot, when, k, i, norm[i], want);
      r.mixd(norm[i]);
    }
    if (std::isfinite(den) && std::fabs(den) > 1e-200 && !(std::fabs(norm[k] - 1.0) <= 4 * kU))
      r.fail("normalised", "slot %d %s: GetResults(%zu)[%zu] is %.17g, not 1", slot, when, k, k, norm[k]);
  }
}

/// Text archives cannot express infinities.
int
format(const Model& m, int64_t asked)
{
  for (auto& b : m.bins)
    for (double x : b)
      if (!std::isfinite(x))
        return 1;
  return (int)asked;
}

/// After a failed restore: unspecified contents, but every claimed bin answers.
void
usable(Run& r, const HistAccumulator& h)
{
  size_t n = h.GetNbins();
  if (n > (1u << 20))
    r.fail("bins", "a failed restore left a histogram claiming %zu bins", n);
  auto all = h.GetResults();
  if (all.size() != n)
    r.fail("bins", "after a failed restore GetResults() has %zu entries for %zu bins", all.size(), n);
  for (size_t i = 0; i < n; i++) {
    (void)h.GetResult(i);
    (void)h.GetCount(i);
  }
}

/// mostly small; some beyond what 8 or 16 bits count
inline size_t
bin(int64_t v)
{
  return (uint64_t)v < 65600 ? (size_t)v : (uint64_t)v % 70;
}

/// f(x) with x of one of several types; the value it had
template<class F>
double
typed(uint64_t kind, double x, F f)
{
  switch (kind % 8) {
    case 1: {
      int y = (int)std::fmod(x, 1e9);
      f(y);
      return y;
    }
    case 2: {
      long y = (long)std::fmod(x, 9e15);
      f(y);
      return (double)y;
    }
    case 3: {
      float y = (float)x;
      f(y);
      return (double)y;
    }
    case 4: {
      unsigned y = (unsigned)std::fmod(std::fabs(x), 4e9);
      f(y);
      return y;
    }
    default:
      f(x);
      return x;
  }
}

void
exec(const Plan& p, Run& r)
{
  warm_up();
  constexpr int N = 3;
  HistAccumulator h[N] = { HistAccumulator((uint64_t)p.c(0) % 9), HistAccumulator(), HistAccumulator((uint64_t)p.c(1) % 4) };
  Model m[N];
  m[0].bins.resize((uint64_t)p.c(0) % 9);
  m[2].bins.resize((uint64_t)p.c(1) % 4);
  bool unspecified[N] = {}; // moved from, or a restore failed
  uint64_t hurt = 0;
  for (auto& s : p.steps) {
    int i = (int)((uint64_t)s.at(0) % N), j = (int)((uint64_t)s.at(1) % N);
    const int64_t nth = s.at(4);
    const bool sticky = s.at(5) & 1;
    r.mixs(s.op);
    bool failed = false;
    auto guarded = [&](auto f) {
      try {
        sim::mem::Scope scope(nth, sticky);
        f();
      } catch (const std::exception&) {
        if (!sim::mem::failures())
          throw; // nobody asked for it
        failed = true;
      }
      if (failed) {
        hurt++;
        r.fault("out-of-memory");
        r.fault(("out-of-memory-" + s.op).c_str());
      }
      r.mix(failed);
    };
    const bool needs_i = s.op == "add" || s.op == "unit" || s.op == "force" || s.op == "forceunit" || s.op == "resize" || s.op == "query" || s.op == "copy" || s.op == "copyctor" || s.op == "move" || s.op == "movector" || s.op == "ckpt" || s.op == "torn" || s.op == "many";
    if (needs_i && unspecified[i]) {
      // bring it back to a specified state first
      h[i].Reset();
      m[i] = {};
      m[i].bins.resize(h[i].GetNbins());
      unspecified[i] = false;
    }
    if (s.op == "add" || s.op == "unit") {
      if (m[i].bins.empty())
        continue;
      size_t k = (uint64_t)s.at(2) % m[i].bins.size();
      double x = s.op == "unit" ? 1.0 : bitsd(s.at(3));
      if (std::isfinite(x) && std::fabs(x) > 1e280)
        x = 2.5;
      if (!std::isfinite(x))
        r.probe("not-finite");
      guarded([&] {
        if (s.op == "unit")
          h[i].Add(k);
        else
          x = typed(std::fabs(x) < 1e18 ? (uint64_t)s.at(3) >> 3 : 0, x, [&](auto y) { h[i].Add(k, y); });
      });
      if (!failed) {
        m[i].bins[k].push_back(x);
        m[i].total++;
      }
    } else if (s.op == "force" || s.op == "forceunit") {
      size_t k = bin(s.at(2));
      double x = s.op == "forceunit" ? 1.0 : bitsd(s.at(3));
      if (std::isfinite(x) && std::fabs(x) > 1e280)
        x = 2.5;
      if (!std::isfinite(x))
        r.probe("not-finite");
      guarded([&] {
        if (s.op == "forceunit")
          h[i].ForceAdd(k);
        else
          x = typed(std::fabs(x) < 1e18 ? (uint64_t)s.at(3) >> 3 : 0, x, [&](auto y) { h[i].ForceAdd(k, y); });
      });
      if (!failed) {
        if (k >= m[i].bins.size())
          m[i].bins.resize(k + 1);
        m[i].bins[k].push_back(x);
        m[i].total++;
      } else {
        // it may have grown on the way, by empty bins
        size_t n = h[i].GetNbins();
        if (n >= m[i].bins.size() && n <= k + 1)
          m[i].bins.resize(n);
      }
    } else if (s.op == "many") {
      Rng g((uint64_t)s.at(2));
      for (int64_t q = 0; q < std::min<int64_t>(s.at(3), 3000); q++) {
        size_t k = g.below(12);
        double x = value(g, (int)s.at(1));
        h[i].ForceAdd(k, x);
        if (k >= m[i].bins.size())
          m[i].bins.resize(k + 1);
        m[i].bins[k].push_back(x);
        m[i].total++;
      }
    } else if (s.op == "resize") {
      size_t n = bin(s.at(2));
      guarded([&] { h[i].Resize(n); });
      if (!failed)
        m[i].bins.resize(n);
      else {
        size_t got = h[i].GetNbins();
        if (got > m[i].bins.size() && got <= n)
          m[i].bins.resize(got);
      }
    } else if (s.op == "reset") {
      guarded([&] { h[i].Reset(); });
      if (unspecified[i]) {
        m[i].bins.resize(h[i].GetNbins());
        unspecified[i] = false;
      }
      for (auto& b : m[i].bins)
        b = {};
      m[i].total = 0;
    } else if (s.op == "copy") {
      // assignment, also onto itself
      if (unspecified[j] && j != i) {
        h[j].Reset();
        m[j] = {};
        m[j].bins.resize(h[j].GetNbins());
        unspecified[j] = false;
      }
      guarded([&] { h[j] = h[i]; });
      if (!failed)
        m[j] = m[i];
    } else if (s.op == "copyctor") {
      guarded([&] {
        HistAccumulator c(h[i]);
        h[j] = std::move(c);
      });
      if (!failed) {
        m[j] = m[i];
        unspecified[j] = false;
      }
    } else if (s.op == "move") {
      if (i != j) {
        h[j] = std::move(h[i]);
        m[j] = m[i];
        unspecified[j] = false;
        unspecified[i] = true;
        usable(r, h[i]);
        r.probe("moved-from");
      }
    } else if (s.op == "movector") {
      HistAccumulator c(std::move(h[i]));
      usable(r, h[i]);
      h[i] = std::move(c);
    } else if (s.op == "ckpt") {
      const int fmt = format(m[i], s.at(2));
      auto data = save(h[i], fmt);
      guarded([&] { load(h[j], data, fmt); });
      if (!failed) {
        m[j] = m[i];
        unspecified[j] = false;
        r.fault("checkpoint-restore");
      } else {
        unspecified[j] = true;
        usable(r, h[j]);
        if (i == j)
          m[i] = {};
      }
    } else if (s.op == "torn") {
      const int fmt = format(m[i], s.at(2));
      auto data = save(h[i], fmt);
      auto cut = data.substr(0, data.size() * (uint64_t)(s.at(3) & 4095) / 4096);
      bool refused = false;
      try {
        load(h[j], cut, fmt);
      } catch (const std::exception&) {
        refused = true;
        r.fault("restore-cut-short");
        hurt++;
      }
      r.mix(refused);
      unspecified[j] = true;
      usable(r, h[j]);
      if ((uint64_t)s.at(6) & 1) {
        load(h[j], data, fmt);
        if (i != j)
          m[j] = m[i];
        unspecified[j] = false;
        r.probe("restored-again");
      }
    }
    else if (s.op == "age") {
      // as if two bins had absorbed that many zeros: the checkpoint of a short
      // history with its counts replaced
      uint64_t a = (uint64_t)s.at(2) >> (2 + (uint64_t)s.at(2) % 48), b = (uint64_t)s.at(3) >> (2 + (uint64_t)s.at(3) % 48);
      if (a < 3000 || b < 3000 || a == b)
        continue;
      HistAccumulator y(2 + (uint64_t)s.at(1) % 3);
      for (int k = 0; k < 1013; k++)
        y.Add(0, 0.0);
      for (int k = 0; k < 907; k++)
        y.Add(1, 0.0);
      size_t done = 0;
      auto t = reworded(save(y, 0), { { "1013", std::to_string(a) }, { "907", std::to_string(b) }, { "1920", std::to_string(a + b) } }, done);
      if (done < 2)
        continue;
      load(h[i], t, 0);
      unspecified[i] = false;
      m[i] = {};
      m[i].bins.resize(y.GetNbins());
      m[i].bins[0].zeros = a;
      m[i].bins[1].zeros = b;
      m[i].total = a + b;
      r.probe("aged");
    }
    for (int k = 0; k < N; k++)
      if (!unspecified[k])
        verify(r, h[k], m[k], k, ("after " + s.op + (failed ? " that failed" : "")).c_str(), (uint64_t)s.at(2));
    uint64_t st = 0;
    for (int k = 0; k < N; k++)
      st = sim::hmix(st, unspecified[k] ? 999 : m[k].bins.size() * 8 + std::min<uint64_t>(7, m[k].total));
    r.state(st);
    for (int k = 0; k < N; k++)
      if (!unspecified[k] && m[k].bins.size() > 65536)
        r.probe("more-than-65536-bins");
  }
  if (hurt)
    r.nontrivial();
}

Plan
gen(Rng& g, bool thorough)
{
  Plan p;
  p.cfg = { g.range(0, 8), g.range(0, 3) };
  int n = (int)g.range(3, thorough ? 50 : 28);
  const bool wild = g.chance(0.1);
  static const double units[] = { 1, 1, 1, 0x1p-900, 0x1p850 };
  const double unit = units[g.below(5)];
  for (int k = 0; k < n; k++) {
    int64_t i = g.range(0, 2), j = g.range(0, 2);
    int64_t nth = g.chance(0.35) ? g.range(1, g.chance(0.8) ? 3 : 9) : 0, sticky = g.range(0, 1);
    int64_t idx = g.chance(0.7) ? g.range(0, 9) : g.chance(0.985) ? g.range(0, 69) : g.chance(0.97) ? g.range(250, 270) : g.range(65530, 65550);
    static const double odd[] = { INFINITY, -INFINITY, NAN, -0.0, 5e-324 };
    int64_t x = dbits(wild && g.chance(0.15) ? odd[g.below(5)] : unit * value(g, (int)g.range(0, 7)));
    switch (g.below(17)) {
      case 16:
        p.add("age", { i, g.range(0, 2), (int64_t)(g.next() >> 1), (int64_t)(g.next() >> 1) });
        break;
      case 0:
      case 1:
        p.add(g.chance(0.3) ? "unit" : "add", { i, 0, idx, x, nth, sticky });
        break;
      case 2:
      case 3:
      case 4:
        p.add(g.chance(0.3) ? "forceunit" : "force", { i, 0, idx, x, nth, sticky });
        break;
      case 5:
        p.add("many", { i, g.range(0, 7), (int64_t)(g.next() >> 1), g.range(1, g.chance(0.1) ? 1500 : 80) });
        break;
      case 6:
      case 7:
        p.add("resize", { i, 0, idx, 0, nth, sticky });
        break;
      case 8:
        p.add("reset", { i, 0, 0, 0, nth, sticky });
        break;
      case 9:
      case 10:
        p.add("copy", { i, j, 0, 0, nth, sticky });
        break;
      case 11:
        p.add("copyctor", { i, j, 0, 0, nth, sticky });
        break;
      case 12:
        p.add(g.chance(0.7) ? "move" : "movector", { i, j });
        break;
      case 13:
      case 14:
        p.add("ckpt", { i, j, g.range(0, 1), 0, g.chance(0.5) ? g.range(1, 30) : 0, sticky });
        break;
      default:
        p.add("torn", { i, j, g.range(0, 1), g.range(0, 4095), 0, 0, g.range(0, 1) });
    }
  }
  return p;
}
}

const sim::CheckDef&
sim::check()
{
  static CheckDef d;
  d.property = "C05";
  d.rule = "Each run is a seeded history of additions, growing additions, resizes, resets, copies, assignments, moves, checkpoint cycles and torn restores over three histograms, in which a chosen allocation of an operation (or all from it on) fails; after every step every bin, count, result and normalised result of every histogram is compared with a model that keeps all values. Non-trivial: an operation ran out of memory or a restore was refused.";
  d.state_measure = "(bins and clipped total count of each of the three histograms, or 'unspecified')";
  d.real = { "bwsl/HistAccumulator.hpp", "bwsl/accumulators/NeumaierAccumulator.hpp", "boost archives and vector serialization", "std::vector with bounds assertions" };
  d.stub = { "operator new (failure injection)", "archive storage (memory, cut)" };
  d.assumptions = { "a torn archive whose damage boost does not report leaves unspecified contents", "an operation that fails may leave additional empty bins behind", "indices passed to Add are valid" };
  d.must_fire = { "more-than-65536-bins", "not-finite", "out-of-memory", "out-of-memory-force", "out-of-memory-resize", "out-of-memory-copy", "out-of-memory-copyctor", "out-of-memory-ckpt", "restore-cut-short", "checkpoint-restore", "moved-from", "restored-again" };
  d.quick_runs = 24000;
  d.thorough_runs = 400000;
  d.generate = gen;
  d.execute = exec;
  return d;
}
