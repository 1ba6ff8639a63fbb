// C03: accumulators agree with exact arithmetic over every history.
#include "common.hpp"
#include <bwsl/Accumulators.hpp>
#include <bwsl/accumulators/NaiveIntegerAccumulator.hpp>
#include <type_traits>

using namespace chk;
namespace acc = bwsl::accumulators;

namespace {

struct SourceFailure
{
};

/// Single-pass source of values that may fail while a value is being read.
struct Source
{
  const std::vector<double>* v;
  size_t fail_at;
};
struct SourceIt
{
  using iterator_category = std::input_iterator_tag;
  using value_type = double;
  using difference_type = std::ptrdiff_t;
  using pointer = const double*;
  using reference = double;
  Source* src = nullptr;
  size_t i = 0;
  double operator*() const
  {
    if (i == src->fail_at)
      throw SourceFailure{};
    return (*src->v)[i];
  }
  SourceIt& operator++()
  {
    ++i;
    return *this;
  }
  SourceIt operator++(int)
  {
    auto c = *this;
    ++i;
    return c;
  }
  bool operator==(const SourceIt& o) const { return i == o.i; }
  bool operator!=(const SourceIt& o) const { return i != o.i; }
};

struct Hist
{
  std::vector<double> x, w;
  uint64_t zeros = 0; // absorbed before, all with weight one
  uint64_t wild = 0;  // infinities and NaN absorbed
};

template<class A>
constexpr bool weighted = std::is_same_v<A, acc::WestAccumulator>;
template<class A>
constexpr bool integer = std::is_same_v<A, bwsl::NaiveInteger>;
template<class A>
constexpr bool welford = std::is_same_v<A, acc::KnuthWelfordAccumulator>;

quad
qsqrt(quad x)
{
  if (x <= 0)
    return 0;
  quad r = std::sqrt((double)x);
  for (int i = 0; i < 3; i++)
    r = (r + x / r) / 2;
  return r;
}

template<class A>
void
verify(Run& r, const A& a, const Hist& h, int slot, const char* when)
{
  const size_t n = h.x.size() + h.zeros + h.wild;
  r.mix(a.Count());
  if (a.Count() != n)
    r.fail("count", "slot %d %s: Count() is %lu, %zu values were absorbed since the last reset", slot, when, a.Count(), n);
  if (h.wild) {
    if (std::isfinite((double)a.Sum()) || std::isfinite((double)a.Mean()))
      r.fail("wild", "slot %d %s: Sum() is %g and Mean() is %g although a value was not finite", slot, when, (double)a.Sum(), (double)a.Mean());
    return;
  }
  quad S = 0, Sabs = 0, W = 0, W2 = 0, amax = 0;
  double lo = 0, hi = 0;
  for (size_t i = 0; i < h.x.size(); i++) {
    quad w = weighted<A> ? (quad)h.w[i] : (quad)1;
    S += w * h.x[i];
    Sabs += w * std::fabs(h.x[i]);
    W += w;
    W2 += w * w;
    amax = std::max(amax, (quad)std::fabs(h.x[i]));
    lo = i ? std::min(lo, h.x[i]) : h.x[i];
    hi = i ? std::max(hi, h.x[i]) : h.x[i];
  }
  W += (quad)h.zeros;
  W2 += (quad)h.zeros;
  if (h.zeros) {
    lo = std::min(lo, 0.0);
    hi = std::max(hi, 0.0);
  }
  const quad u = kU;
  // zeros are absorbed without any rounding: the others count for the bounds
  const quad nn = (quad)(h.x.size() + (h.zeros ? 4 : 0));
  const quad tiny = 1e-300Q;
  double sum = (double)a.Sum();
  r.mixd(sum);
  quad mean = n ? S / W : (quad)0;
  quad M2 = 0;
  for (size_t i = 0; i < h.x.size(); i++) {
    quad w = weighted<A> ? (quad)h.w[i] : (quad)1;
    M2 += w * (h.x[i] - mean) * (h.x[i] - mean);
  }
  M2 += (quad)h.zeros * mean * mean;
  quad sumtol, meantol;
  if constexpr (integer<A>) {
    if ((quad)a.Sum() != S)
      r.fail("sum", "slot %d %s: Sum() is %ld, exact sum is %.0f", slot, when, (long)a.Sum(), (double)S);
    sumtol = 0;
    meantol = 4 * u * qabs(mean);
  } else if constexpr (std::is_same_v<A, acc::KahanAccumulator>) {
    sumtol = (3 * u + 8 * nn * u * u) * Sabs + tiny;
    meantol = n ? sumtol / W * (1 + 4 * u) + 2 * u * qabs(mean) : (quad)0;
  } else if constexpr (std::is_same_v<A, acc::NeumaierAccumulator>) {
    sumtol = 1.01Q * u * qabs(S) + 2 * nn * nn * u * u * Sabs + tiny;
    meantol = n ? sumtol / W * (1 + 4 * u) + 2 * u * qabs(mean) : (quad)0;
  } else {
    meantol = 8 * (nn + 2) * u * amax + tiny;
    sumtol = (meantol + 8 * (nn + 2) * u * amax) * W + tiny;
    if (h.zeros && !weighted<A>) {
      meantol = 16 * (nn + 2) * (nn + 2) * u * amax / (quad)h.zeros + tiny;
      sumtol = 2 * meantol * W + 4 * u * qabs(S) + tiny;
    }
  }
  if (!within(sum, S, sumtol))
    r.fail("sum", "slot %d %s: Sum() is %.17g, exact %.17g, off by %.3g, bound %.3g (%zu values)", slot, when, sum, (double)S, (double)((quad)sum - S), (double)sumtol, n);
  if (n == 0)
    return;
  double m = a.Mean();
  r.mixd(m);
  if (!within(m, mean, meantol))
    r.fail("mean", "slot %d %s: Mean() is %.17g, exact %.17g, bound %.3g (%zu values)", slot, when, m, (double)mean, (double)meantol, n);
  if (n < 2)
    return;
  quad m2tol = 8 * (nn + 4) * u * (M2 + qsqrt(M2 * W) * amax) + 8 * W * (nn + 2) * (nn + 2) * u * u * amax * amax + tiny;
  if constexpr (weighted<A>) // a light first value followed by heavy ones
    m2tol += 8 * (nn + 4) * u * W * amax * ((quad)hi - lo);
  if (h.zeros && !weighted<A>)
    m2tol = 64 * (nn + 4) * (nn + 4) * u * amax * amax + tiny;
  if constexpr (integer<A>)
    m2tol = 8 * (nn + 4) * u * M2 + tiny;
  auto check = [&](const char* what, double got, quad den, quad denrel) {
    // got = m2/den: compare got*den with M2
    quad tol = m2tol * (1 + denrel) + (denrel + 4 * u) * M2;
    if (!within(got, M2 / den, tol / qabs(den)))
      r.fail("variance", "slot %d %s: %s is %.17g, exact %.17g, bound %.3g (%zu values)", slot, when, what, got, (double)(M2 / den), (double)(tol / qabs(den)), n);
    r.mixd(got);
  };
  auto check_sqrt = [&](const char* what, double got, quad var, quad vartol) {
    // sqrt: |s - sqrt(v)| <= tol / sqrt(v), or <= sqrt(tol) near zero
    quad s = qsqrt(var);
    quad tol = s > 0 ? vartol / s : qsqrt(vartol);
    quad t2 = qsqrt(vartol);
    if (t2 < tol)
      tol = t2;
    tol = tol * 1.01Q + 4 * u * s + 1e-160Q;
    if (!within(got, s, tol))
      r.fail("deviation", "slot %d %s: %s is %.17g, exact %.17g (%zu values)", slot, when, what, got, (double)s, n);
    r.mixd(got);
  };
  if constexpr (weighted<A>) {
    check("PopulationVariance()", a.PopulationVariance(), W, 4 * nn * u);
    quad d = W - 1, e = 4 * nn * u * W;
    if (qabs(d) > 1000 * e)
      check("SampleFrequencyVariance()", a.SampleFrequencyVariance(), d, 2 * e / qabs(d));
    d = W - W2 / W;
    e = 8 * nn * u * W;
    if (d > 1000 * e)
      check("SampleReliabilityVariance()", a.SampleReliabilityVariance(), d, 2 * e / d);
  } else if constexpr (integer<A> || welford<A>) {
    check("ScaledVariance()", a.ScaledVariance(), 1, 4 * u);
    for (bool c : { false, true }) {
      quad den = c ? W - 1 : W;
      check(c ? "Variance(true)" : "Variance(false)", a.Variance(c), den, 4 * u);
      check_sqrt(c ? "StandardDeviation(true)" : "StandardDeviation(false)", a.StandardDeviation(c), M2 / den, m2tol / den);
      if constexpr (welford<A>)
        check_sqrt(c ? "Error(true)" : "Error(false)", a.Error(c), M2 / den / W, m2tol / den / W);
    }
  }
}

template<class A>
void
add(A& a, Hist& h, double x, double w)
{
  if constexpr (weighted<A>) {
    a.Add(x, w);
    if (w > 0) {
      h.x.push_back(x);
      h.w.push_back(w);
    }
  } else if constexpr (integer<A>) {
    a.Add((long)x);
    h.x.push_back((double)(long)x);
  } else {
    a.Add(x);
    h.x.push_back(x);
  }
}

double
weight(Rng& g, int kind)
{
  switch (kind % 8) {
    case 0:
      return (double)g.range(0, 3);
    case 1:
      return g.unit();
    case 2:
      return g.chance(0.2) ? -1.0 : std::ldexp(1.0, (int)g.range(-12, 12));
    case 3:
      return 1.0;
    case 4:
      return g.chance(0.1) ? 0.0 : g.unit() * 1e-3;
    case 5: // weights are relative: all may be tiny or huge
      return g.chance(0.1) ? 0.0 : std::ldexp(1 + g.unit(), -100);
    case 6:
      return std::ldexp(g.unit(), 100);
    default:
      return std::ldexp(1 + g.unit(), (int)g.range(-60, 60));
  }
}

template<class A>
void
run(const Plan& p, Run& r)
{
  constexpr int N = 3;
  A a[N];
  Hist h[N];
  // values in any unit
  const int units[] = { 0, 0, 0, -300, 300, weighted<A> || welford<A> ? 100 : -900, weighted<A> || welford<A> ? -100 : 850 };
  const double unit = integer<A> ? 1.0 : std::ldexp(1.0, units[(uint64_t)p.c(1) % 7]);
  uint64_t interesting = 0;
  for (auto& s : p.steps) {
    int i = (int)((uint64_t)s.at(0) % N), j = (int)((uint64_t)s.at(1) % N);
    r.mixs(s.op);
    if (s.op == "add") {
      double x = bitsd(s.at(1));
      if (!std::isfinite(x) || std::fabs(x) > 1e17)
        x = 1.0;
      if (integer<A> && std::fabs(x) > 1e6)
        x = std::fmod(x, 1e6);
      add(a[i], h[i], x * unit, bitsd(s.at(2)));
    } else if (s.op == "wild") {
      static const double values[] = { INFINITY, -INFINITY, NAN };
      const double x = values[(uint64_t)s.at(1) % 3];
      if constexpr (weighted<A>)
        a[i].Add(x, (uint64_t)s.at(2) % 4 ? (double)((uint64_t)s.at(2) % 4) : INFINITY);
      else if constexpr (!integer<A>)
        a[i].Add(x);
      h[i].wild += !integer<A>;
      r.probe("not-finite");
    } else if (s.op == "many") {
      Rng g((uint64_t)s.at(1));
      auto n = std::min<int64_t>(200000, s.at(2));
      for (int64_t k = 0; k < n; k++) {
        double x = value(g, (int)s.at(3));
        if (integer<A>)
          x = std::fmod(std::floor(x * (s.at(3) % 8 == 1 ? 1000 : 1)), 1e6);
        add(a[i], h[i], x * unit, weight(g, (int)s.at(4)));
      }
    } else if (s.op == "bulk") {
      // apply_accumulator over a source that may fail at an element
      if constexpr (!weighted<A>) {
        Rng g((uint64_t)s.at(1));
        auto n = (size_t)std::min<int64_t>(20000, std::max<int64_t>(0, s.at(2)));
        std::vector<double> v(n);
        for (auto& x : v) {
          x = value(g, (int)s.at(3));
          if (integer<A>)
            x = std::fmod(std::floor(x), 1e6);
          x *= unit;
        }
        Source src{ &v, s.at(4) < 0 ? SIZE_MAX : (size_t)s.at(4) };
        SourceIt b{ &src, 0 }, e{ &src, n };
        bool failed = false;
        try {
          A& back = bwsl::apply_accumulator(b, e, a[i]);
          if (&back != &a[i])
            r.fail("bulk", "apply_accumulator returned another object");
        } catch (const SourceFailure&) {
          failed = true;
          r.fault("source-failure");
          interesting++;
        }
        if (failed != (src.fail_at < n))
          r.fail("bulk", "the source %s but apply_accumulator %s", src.fail_at < n ? "failed" : "did not fail", failed ? "threw" : "returned");
        for (size_t k = 0; k < std::min(n, src.fail_at); k++)
          h[i].x.push_back(v[k]);
        verify(r, a[i], h[i], i, "after a bulk feed");
      }
    } else if (s.op == "reset") {
      a[i].Reset();
      h[i] = {};
      interesting++;
    } else if (s.op == "copy") {
      a[j] = a[i];
      h[j] = h[i];
      interesting++;
    } else if (s.op == "copyctor") {
      A c(a[i]);
      a[j].~A();
      new (&a[j]) A(c);
      h[j] = h[i];
    } else if (s.op == "move") {
      if (i != j) {
        a[j] = std::move(a[i]);
        h[j] = std::move(h[i]);
        a[i].Reset(); // a moved-from accumulator is only reset or assigned
        h[i] = {};
        interesting++;
      }
    } else if (s.op == "movector") {
      A c(std::move(a[i]));
      a[i] = c;
    } else if (s.op == "ckpt") {
      // text archives cannot express infinities
      const int fmt = (int)s.at(2) | (h[i].wild > 0);
      auto data = save(a[i], fmt);
      load(a[j], data, fmt);
      h[j] = h[i];
      r.fault("checkpoint-restore");
      interesting++;
    } else if (s.op == "torn") {
      // a restore from a torn archive fails; the target is then reset
      auto data = save(a[i], (int)s.at(2));
      data.resize(data.size() * (uint64_t)(s.at(3) & 1023) / 1024);
      try {
        load(a[j], data, (int)s.at(2));
      } catch (const std::exception&) {
        r.fault("torn-restore");
      }
      a[j].Reset();
      h[j] = {};
    } else if (s.op == "age") {
      // as if it had absorbed that many zeros: the checkpoint of a short
      // history with its counts replaced
      uint64_t n = (uint64_t)s.at(1) >> (weighted<A> ? 12 + (uint64_t)s.at(1) % 36 : 1 + (uint64_t)s.at(1) % 48);
      if (n < 2000)
        continue;
      A y;
      Hist none;
      for (int k = 0; k < 1013; k++)
        add(y, none, 0.0, 1.0);
      char real[64];
      snprintf(real, sizeof real, "%.17e", (double)n);
      size_t done = 0;
      auto t = reworded(save(y, 0), { { "1013", std::to_string(n) }, { "1.01300000000000000e+03", real } }, done);
      if (done < (weighted<A> ? 3 : 1))
        continue; // the archive does not show the counts
      load(a[i], t, 0);
      h[i] = {};
      h[i].zeros = n;
      r.probe("aged");
      interesting++;
    } else if (s.op == "query") {
      verify(r, a[i], h[i], i, "during the run");
    }
  }
  for (int i = 0; i < N; i++)
    verify(r, a[i], h[i], i, "at the end");
  uint64_t st = 0;
  for (int i = 0; i < N; i++) {
    size_t n = h[i].x.size() + h[i].zeros + h[i].wild;
    st = sim::hmix(st, n < 2 ? n : 2 + (uint64_t)std::log2((double)n));
  }
  st = sim::hmix(st, interesting);
  r.state(sim::hmix(st, (uint64_t)p.c(0)));
  if (interesting)
    r.nontrivial();
}

Plan
gen(Rng& g, bool thorough)
{
  Plan p;
  p.cfg = { g.range(0, 4), g.range(0, 6) };
  const bool wild = g.chance(0.15);
  int n = (int)g.range(3, thorough ? 40 : 24);
  bool big = g.chance(thorough ? 0.10 : 0.03);
  int kind = (int)g.range(0, 7), wk = (int)g.range(0, 7);
  for (int k = 0; k < n; k++) {
    if (g.chance(0.3)) {
      kind = (int)g.range(0, 7);
      wk = (int)g.range(0, 7);
    }
    int64_t i = g.range(0, 2), j = g.range(0, 2);
    if (wild && g.chance(0.15)) {
      p.add("wild", { i, g.range(0, 2), g.range(0, 15) });
      p.add(g.chance(0.6) ? "reset" : "query", { i });
      continue;
    }
    switch (g.below(17)) {
      case 16:
        p.add("age", { i, (int64_t)(g.next() >> 1) });
        break;
      case 0:
      case 1:
      case 2:
      case 3: {
        for (int q = (int)g.range(1, 5); q > 0; q--)
          p.add("add", { i, dbits(value(g, kind)), dbits(weight(g, wk)) });
        break;
      }
      case 4:
      case 5:
        p.add("many", { i, (int64_t)(g.next() >> 1), g.chance(0.5) ? g.range(0, 4) : big ? g.range(1000, 60000) : g.range(5, 400), kind, wk });
        break;
      case 6:
      case 7: {
        int64_t m = g.chance(0.3) ? g.range(0, 3) : g.range(0, 300);
        p.add("bulk", { i, (int64_t)(g.next() >> 1), m, kind, g.chance(0.5) ? -1 : g.range(0, m + 1) });
        break;
      }
      case 8:
        p.add("reset", { i });
        break;
      case 9:
        p.add(g.chance(0.5) ? "copy" : "copyctor", { i, j });
        break;
      case 10:
        p.add(g.chance(0.5) ? "move" : "movector", { i, j });
        break;
      case 11:
      case 12:
        p.add("ckpt", { i, j, g.range(0, 1) });
        break;
      case 13:
        p.add("torn", { i, j, g.range(0, 1), g.range(0, 1023) });
        break;
      default:
        p.add("query", { i });
    }
  }
  return p;
}

void
exec(const Plan& p, Run& r)
{
  switch ((uint64_t)p.c(0) % 5) {
    case 0:
      return run<acc::KahanAccumulator>(p, r);
    case 1:
      return run<acc::NeumaierAccumulator>(p, r);
    case 2:
      return run<acc::KnuthWelfordAccumulator>(p, r);
    case 3:
      return run<acc::WestAccumulator>(p, r);
    default:
      return run<bwsl::NaiveInteger>(p, r);
  }
}
}

const sim::CheckDef&
sim::check()
{
  static CheckDef d;
  d.property = "C03";
  d.rule = "Each run is a seeded history (3-40 steps, up to 10^5 values) of additions, bulk feeds whose source may fail at an element, resets, copies, moves, checkpoint/restore cycles, torn restores and checkpoints of very long histories (counts up to 2^62) over three objects of one accumulator type; non-trivial when a reset, copy, move, restore or source failure happened; distinct by the hash of the event log.";
  d.state_measure = "(accumulator type, order of magnitude of each object's count, number of history events)";
  d.real = { "bwsl/Accumulators.hpp and bwsl/accumulators/*.hpp", "boost::archive text and binary archives", "boost::serialization" };
  d.stub = { "value source (seeded iterator with injected failure)", "archive storage (memory)" };
  d.assumptions = { "values are finite and their sums do not overflow", "reference sums and deviations in 113-bit arithmetic", "x86-64 doubles without excess precision; no contraction" };
  d.must_fire = { "source-failure", "checkpoint-restore", "torn-restore", "aged", "not-finite" };
  d.quick_runs = 24000;
  d.thorough_runs = 400000;
  d.generate = gen;
  d.execute = exec;
  return d;
}
