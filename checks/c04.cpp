// C04: with overflow checks on, a full accumulator refuses instead of wrapping.
// FLAGS: -DBWSL_ACCUMULATORS_CHECKS
#include "common.hpp"
#include <bwsl/Accumulators.hpp>
#include <bwsl/HistAccumulator.hpp>
#include <bwsl/accumulators/NaiveIntegerAccumulator.hpp>
#include <type_traits>

using namespace chk;
namespace acc = bwsl::accumulators;
using Overflow = bwsl::exception::AccumulatorOverflow;

namespace {

template<class A>
constexpr bool integer = std::is_same_v<A, bwsl::NaiveInteger>;
template<class A>
constexpr bool weighted = std::is_same_v<A, acc::WestAccumulator>;

/// Bit-exact image of the object's state
template<class A>
std::string
image(const A& a)
{
  return save(a, 1);
}

/// A checkpoint of an accumulator that has lasted very long: that of a short
/// run with its count (and whole-number sums) replaced in the archive. False
/// if the archive does not hold them as numbers.
template<class A>
bool
aged(A& a, unsigned long count, __int128 sum, __int128 sum2)
{
  A x;
  for (int k = 0; k < 1013; k++)
    if constexpr (weighted<A>)
      x.Add(0.0, 0.5);
    else if constexpr (integer<A>)
      x.Add(37L);
    else
      x.Add(0.0);
  auto t = save(x, 0);
  std::vector<std::pair<std::string, std::string>> swap = { { "1013", std::to_string(count) } };
  if (integer<A>) {
    swap.emplace_back(std::to_string(1013 * 37), std::to_string((long)sum));
    swap.emplace_back(std::to_string(1013 * 37 * 37), std::to_string((long)sum2));
  }
  size_t done = 0;
  auto out = reworded(t, swap, done);
  if (done != swap.size())
    return false;
  A y;
  try {
    load(y, out, 0);
  } catch (const std::exception&) {
    return false;
  }
  if (y.Count() != count)
    return false;
  if constexpr (integer<A>)
    if (y.Sum() != (long)sum)
      return false;
  a = y;
  return true;
}

template<class A>
void
run(const Plan& p, Run& r)
{
  constexpr auto ulmax = std::numeric_limits<unsigned long>::max();
  constexpr __int128 lmax = std::numeric_limits<long>::max();
  constexpr __int128 lmin = std::numeric_limits<long>::min();
  constexpr int N = 2;
  A a[N];
  unsigned long cnt[N] = {};
  __int128 sum[N] = {}, sum2[N] = {};
  bool refused = false, full = false;
  for (auto& s : p.steps) {
    int i = (int)((uint64_t)s.at(0) % N), j = (int)((uint64_t)s.at(1) % N);
    r.mixs(s.op);
    if (s.op == "age") {
      // the run has already lasted very long
      auto n = ulmax - (unsigned long)((uint64_t)s.at(1) & 15);
      if (aged(a[i], n, sum[i], sum2[i])) {
        cnt[i] = n;
        r.fault("counter-near-maximum");
      }
    } else if (s.op == "add" || s.op == "bulk") {
      int times = s.op == "bulk" ? (int)((uint64_t)s.at(3) % 24) : 1;
      bool stop = false;
      std::vector<double> vals;
      for (int k = 0; k < times; k++) {
        double x = bitsd(s.at(1));
        long lx = s.at(1);
        double w = bitsd(s.at(2));
        bool ignored = weighted<A> && !(w > 0);
        bool fits = ignored || cnt[i] != ulmax;
        if (integer<A>) {
          __int128 q = (__int128)lx * lx;
          fits = cnt[i] != ulmax && sum[i] + lx <= lmax && sum[i] + lx >= lmin && sum2[i] + q <= lmax;
        }
        auto before = image(a[i]);
        bool threw = false;
        try {
          if constexpr (weighted<A>)
            a[i].Add(x, w);
          else if constexpr (integer<A>) {
            if (s.op == "bulk") {
              long one[1] = { lx };
              bwsl::apply_accumulator(one, one + 1, a[i]);
            } else
              a[i].Add(lx);
          } else if (s.op == "bulk") {
            double one[1] = { x };
            bwsl::apply_accumulator(one, one + 1, a[i]);
          } else
            a[i].Add(x);
        } catch (const Overflow&) {
          threw = true;
          refused = true;
          r.fault("addition-refused");
        } catch (const std::exception& e) {
          r.fail("exception", "slot %d: unexpected exception %s", i, e.what());
        }
        r.mix(threw);
        if (threw && fits)
          r.fail("refused", "slot %d: an addition that fits was refused (count %lu, sum %.0Lf, sum of squares %.0Lf, value %ld)", i, cnt[i], (long double)sum[i], (long double)sum2[i], lx);
        if (!threw && !fits)
          r.fail("accepted", "slot %d: an addition that does not fit was accepted (count %lu, sum %.0Lf, sum of squares %.0Lf, value %ld); count is now %lu", i, cnt[i], (long double)sum[i], (long double)sum2[i], lx, a[i].Count());
        if (threw && image(a[i]) != before)
          r.fail("changed", "slot %d: a refused addition changed the accumulator (count %lu -> %lu)", i, cnt[i], a[i].Count());
        if (!threw && !ignored) {
          cnt[i]++;
          sum[i] += lx;
          sum2[i] += (__int128)lx * lx;
          if (cnt[i] == ulmax) {
            full = true;
            r.probe("counter-filled");
          }
        }
        if (a[i].Count() != cnt[i])
          r.fail("count", "slot %d: Count() is %lu, expected %lu", i, a[i].Count(), cnt[i]);
        if constexpr (integer<A>) {
          if (a[i].Sum() != (long)sum[i])
            r.fail("sum", "slot %d: Sum() is %ld, expected %ld", i, (long)a[i].Sum(), (long)sum[i]);
          // the sum of squares is only visible in the checkpoint
          static const bool shown = [] {
            A x;
            return aged(x, 5, 7, 11);
          }();
          if (shown) {
            auto want = std::to_string((long)sum2[i]);
            bool found = false;
            for (auto& t : words(save(a[i], 0)))
              found = found || t == want;
            if (!found)
              r.fail("sum", "slot %d: the sum of squares is not %s", i, want.c_str());
          }
        }
        if (stop)
          break;
      }
    } else if (s.op == "fill") {
      // integer accumulator: bring a sum close to its limit with a single state
      if constexpr (integer<A>) {
        long l[2] = { s.at(1), s.at(2) < 0 ? 0 : s.at(2) };
        if (!aged(a[i], cnt[i], l[0], l[1]))
          continue;
        sum[i] = l[0];
        sum2[i] = l[1];
        r.fault("sums-near-limits");
      }
    } else if (s.op == "reset") {
      a[i].Reset();
      cnt[i] = 0;
      sum[i] = sum2[i] = 0;
    } else if (s.op == "copy") {
      a[j] = a[i];
      cnt[j] = cnt[i];
      sum[j] = sum[i];
      sum2[j] = sum2[i];
    } else if (s.op == "ckpt") {
      load(a[j], save(a[i], (int)s.at(2)), (int)s.at(2));
      cnt[j] = cnt[i];
      sum[j] = sum[i];
      sum2[j] = sum2[i];
      r.fault("checkpoint-restore");
    }
    for (int k = 0; k < N; k++) {
      if (a[k].Count() != cnt[k])
        r.fail("count", "slot %d: Count() is %lu, expected %lu", k, a[k].Count(), cnt[k]);
      r.mix(cnt[k]);
      r.state(sim::hmix(sim::hmix((uint64_t)p.c(0), std::min<uint64_t>(ulmax - cnt[k], 20)), std::min<uint64_t>(cnt[k], 20) * 2 + refused));
    }
  }
  if (refused || full)
    r.nontrivial();
}

/// A histogram counts twice: for every bin, and in total.
void
run_histogram(const Plan& p, Run& r)
{
  using bwsl::HistAccumulator;
  constexpr auto ulmax = std::numeric_limits<unsigned long>::max();
  constexpr int N = 2;
  HistAccumulator h[N];
  std::vector<unsigned long> bins[N];
  unsigned long total[N] = {};
  bool refused = false, full = false;
  auto verify = [&](int i, const char* when) {
    if (h[i].GetNbins() != bins[i].size())
      r.fail("count", "histogram %d has %zu bins, expected %zu (%s)", i, h[i].GetNbins(), bins[i].size(), when);
    if (h[i].GetCount() != total[i])
      r.fail("count", "histogram %d counts %zu measurements, expected %lu (%s)", i, h[i].GetCount(), total[i], when);
    for (size_t k = 0; k < bins[i].size(); k++)
      if (h[i].GetCount(k) != bins[i][k])
        r.fail("count", "bin %zu of histogram %d counts %zu measurements, expected %lu (%s)", k, i, h[i].GetCount(k), bins[i][k], when);
  };
  for (auto& s : p.steps) {
    int i = (int)((uint64_t)s.at(0) % N), j = (int)((uint64_t)s.at(1) % N);
    r.mixs(s.op);
    if (s.op == "age") {
      auto n = ulmax - (unsigned long)((uint64_t)s.at(1) & 15);
      // all in one bin, or shared
      unsigned long b = (s.at(2) & 1) ? 0 : std::max<unsigned long>(3000, n >> ((uint64_t)s.at(2) % 61 + 1)), a = n - b;
      HistAccumulator x(2 + (uint64_t)s.at(2) % 3);
      for (int k = 0; k < 1013; k++)
        x.Add(0, 0.0);
      for (int k = 0; k < 907 && b; k++)
        x.Add(1, 0.0);
      size_t done = 0;
      auto t = reworded(save(x, 0), { { "1013", std::to_string(a) }, { "907", std::to_string(b) }, { "1920", std::to_string(n) } }, done);
      HistAccumulator y;
      try {
        load(y, t, 0);
      } catch (const std::exception&) {
        continue;
      }
      if (y.GetNbins() != x.GetNbins() || y.GetCount() != n || y.GetCount(0) != a || y.GetCount(1) != b)
        continue;
      h[i] = y;
      bins[i].assign(y.GetNbins(), 0);
      bins[i][0] = a;
      bins[i][1] = b;
      total[i] = n;
      r.fault("counter-near-maximum");
    } else if (s.op == "add" || s.op == "bulk") {
      int times = s.op == "bulk" ? (int)((uint64_t)s.at(3) % 24) : 1;
      for (int k = 0; k < times; k++) {
        const bool grow = s.at(2) & 1;
        size_t idx = ((uint64_t)s.at(2) >> 1) % (bins[i].size() + 3);
        if (!grow && bins[i].empty())
          break;
        if (!grow)
          idx %= bins[i].size();
        auto before = save(h[i], 1);
        bool threw = false;
        try {
          if (grow && (s.at(2) & 64))
            h[i].ForceAdd(idx);
          else if (grow)
            h[i].ForceAdd(idx, bitsd(s.at(1)));
          else if (s.at(2) & 64)
            h[i].Add(idx);
          else
            h[i].Add(idx, bitsd(s.at(1)));
        } catch (const Overflow&) {
          threw = true;
          refused = true;
          r.fault("addition-refused");
          r.probe("histogram-refused");
        }
        r.mix(threw);
        if (threw && total[i] != ulmax)
          r.fail("refused", "histogram %d: an addition that fits was refused after %lu measurements", i, total[i]);
        if (!threw && total[i] == ulmax)
          r.fail("accepted", "histogram %d: an addition to bin %zu was accepted although as many measurements as can be counted have been made; it now counts %zu", i, idx, h[i].GetCount());
        if (threw && save(h[i], 1) != before)
          r.fail("changed", "a refused addition changed histogram %d", i);
        if (!threw) {
          if (idx >= bins[i].size())
            bins[i].resize(idx + 1);
          bins[i][idx]++;
          if (++total[i] == ulmax) {
            full = true;
            r.probe("counter-filled");
          }
        }
        verify(i, "addition");
      }
    } else if (s.op == "fill") {
      auto n = (uint64_t)s.at(1) % 6;
      h[i].Resize(n);
      bins[i].resize(n);
    } else if (s.op == "reset") {
      h[i].Reset();
      bins[i].assign(bins[i].size(), 0);
      total[i] = 0;
    } else if (s.op == "copy") {
      h[j] = h[i];
      bins[j] = bins[i];
      total[j] = total[i];
    } else if (s.op == "ckpt") {
      load(h[j], save(h[i], (int)s.at(2)), (int)s.at(2));
      bins[j] = bins[i];
      total[j] = total[i];
      r.fault("checkpoint-restore");
    }
    for (int k = 0; k < N; k++) {
      verify(k, s.op.c_str());
      r.mix(total[k]);
      r.state(sim::hmix(sim::hmix((uint64_t)p.c(0), std::min<uint64_t>(ulmax - total[k], 20)), std::min<uint64_t>(total[k], 20) * 2 + refused));
    }
  }
  if (refused || full)
    r.nontrivial();
}

Plan
gen(Rng& g, bool thorough)
{
  Plan p;
  p.cfg = { g.range(0, 6) };
  const bool ints = p.cfg[0] == 4, hist = p.cfg[0] >= 5;
  int n = (int)g.range(3, thorough ? 60 : 30);
  const int64_t L = std::numeric_limits<long>::max();
  auto val = [&]() -> int64_t {
    if (!ints)
      return dbits(value(g, (int)g.range(0, 7)));
    switch (g.below(8)) {
      case 0:
        return 0;
      case 1:
        return g.range(-3, 3);
      case 2:
        return g.range(-1000, 1000);
      case 3:
        return (g.chance(0.5) ? 1 : -1) * (3037000499L + g.range(-2, 2));
      case 4:
        return (g.chance(0.5) ? 1 : -1) * (int64_t)std::sqrt((double)L / (double)g.range(1, 9));
      case 5:
        return g.chance(0.5) ? L - g.range(0, 2) : -L - g.range(0, 1);
      case 6:
        return (g.chance(0.5) ? 1 : -1) * (int64_t)(g.next() >> g.range(20, 62));
      default:
        return (int64_t)g.next();
    }
  };
  for (int k = 0; k < n; k++) {
    int64_t i = g.range(0, 1), j = g.range(0, 1);
    switch (g.below(10)) {
      case 0:
      case 1:
        p.add("age", { i, g.range(0, 9), (int64_t)(g.next() >> 1) });
        break;
      case 2:
        if (hist)
          p.add("fill", { i, g.range(0, 5) });
        else if (ints)
          p.add("fill", { i, g.chance(0.6) ? (g.chance(0.5) ? L - g.range(0, 3000) : -L - 1 + g.range(0, 3000)) : g.range(-5, 5), g.chance(0.5) ? L - (int64_t)(g.next() >> g.range(1, 62)) : g.range(0, 100) });
        break;
      case 3:
        p.add("reset", { i });
        break;
      case 4:
        p.add(g.chance(0.5) ? "copy" : "ckpt", { i, j, g.range(0, 1) });
        break;
      case 5:
        if (hist)
          p.add("bulk", { i, val(), g.range(0, 127), g.range(0, 16) });
        else
          p.add("bulk", { i, val(), dbits(g.chance(0.2) ? 0.0 : 1.0), g.range(0, 16) });
        break;
      default:
        if (hist)
          p.add("add", { i, val(), g.range(0, 127) });
        else
          p.add("add", { i, val(), dbits(g.chance(0.2) ? (g.chance(0.5) ? 0.0 : -1.0) : 0.5) });
    }
  }
  return p;
}

void
exec(const Plan& p, Run& r)
{
  switch ((uint64_t)p.c(0) % 7) {
    case 0:
      return run<acc::KahanAccumulator>(p, r);
    case 1:
      return run<acc::NeumaierAccumulator>(p, r);
    case 2:
      return run<acc::KnuthWelfordAccumulator>(p, r);
    case 3:
      return run<acc::WestAccumulator>(p, r);
    case 4:
      return run<bwsl::NaiveInteger>(p, r);
    default:
      return run_histogram(p, r);
  }
}
}

const sim::CheckDef&
sim::check()
{
  static CheckDef d;
  d.property = "C04";
  d.rule = "Each run is a seeded history of additions, bulk feeds, resets, copies and checkpoint cycles on two accumulators or histograms compiled with BWSL_ACCUMULATORS_CHECKS whose counters (and integer sums) have been aged, through edited checkpoints, to within a few additions of what they can represent; non-trivial when an addition was refused or the counter was filled.";
  d.state_measure = "(accumulator type, distance of the counter from its maximum and from zero up to 20, whether a refusal happened)";
  d.real = { "bwsl/accumulators/*.hpp with BWSL_ACCUMULATORS_CHECKS", "bwsl/Accumulators.hpp", "bwsl/HistAccumulator.hpp", "boost archives" };
  d.stub = { "the passage of 2^64 additions (counter set in a text checkpoint)" };
  d.assumptions = { "the counter is the only unsigned long, and the two sums the only long fields, that an accumulator archives" };
  d.must_fire = { "addition-refused", "counter-near-maximum", "counter-filled", "sums-near-limits", "histogram-refused", "checkpoint-restore" };
  d.quick_runs = 32000;
  d.thorough_runs = 400000;
  d.generate = gen;
  d.execute = exec;
  return d;
}
