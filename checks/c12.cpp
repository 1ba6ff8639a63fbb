// C12: random selection is in range, honours the weights and never picks
// weight zero.
#include "common.hpp"
#include <array>
#include <bwsl/MathUtils.hpp>
#include <deque>

using namespace chk;

namespace {

/// A generator the simulator controls: random words, with the extreme ones as
/// often as the plan wants, stuck for a while, or evenly spread.
template<class U, U LO, U HI>
struct Gen
{
  using result_type = U;
  static constexpr U min() { return LO; }
  static constexpr U max() { return HI; }
  Rng rng{ 0 };
  int mode = 0;             // 0 random, 1 extremes mixed in, 2 all minimum, 3 all maximum, 4 alternating, 5 edges of powers of two, 6 evenly spread
  uint64_t words = 0, extreme = 0;
  uint64_t step = 0, offset = 0; // mode 6
  U operator()()
  {
    words++;
    switch (mode) {
      case 1:
        if (rng.chance(0.3)) {
          extreme++;
          auto d = (U)rng.below(3);
          return rng.chance(0.5) ? (U)(LO + d) : (U)(HI - d);
        }
        break;
      case 2:
        extreme++;
        return LO;
      case 3:
        extreme++;
        return HI;
      case 4:
        extreme++;
        return words & 1 ? LO : HI;
      case 5: {
        U b = (U)((U)1 << rng.below(sizeof(U) * 8));
        U w = rng.chance(0.5) ? (U)(b - rng.below(3)) : (U)(~b + rng.below(3));
        return w < LO ? LO : w > HI ? HI : w;
      }
      case 6: {
        U w = (U)(offset + step * (words - 1));
        return w < LO ? LO : w > HI ? HI : w;
      }
    }
    return (U)(LO + (U)rng.below((uint64_t)(HI - LO) + 1 == 0 ? ~0ull : (uint64_t)(HI - LO) + 1));
  }
};
using G64 = Gen<uint64_t, 0, ~0ull>;
using G32 = Gen<uint32_t, 0, ~0u>;
using G31 = Gen<uint32_t, 1, 2147483646u>; // like minstd
using G48 = Gen<uint64_t, 0, (1ull << 48) - 1>;

struct WordFailure
{
};

/// A generator that makes choices of its own while it is asked for a word, or
/// that fails to deliver it
template<class G, class C>
struct Busy
{
  using result_type = typename G::result_type;
  static constexpr result_type min() { return G::min(); }
  static constexpr result_type max() { return G::max(); }
  G& g;
  C own;
  bool fails;
  result_type operator()()
  {
    if (fails)
      throw WordFailure{};
    G other;
    other.rng = Rng(g.words);
    volatile auto k = bwsl::choose_between(own, other);
    (void)k;
    std::partial_sum(own.begin(), own.end(), own.begin());
    k = bwsl::choose_between_psums(own, other);
    k = bwsl::choose_with_probability(0.5, other);
    return g();
  }
};

double
weight(Rng& g, int64_t kind)
{
  switch ((uint64_t)kind % 9) {
    case 8: // the smallest numbers there are
      return g.chance(0.4) ? 0.0 : std::ldexp((double)g.range(1, 5), -1074);
    case 0:
      return (double)g.range(0, 4);
    case 1:
      return g.chance(0.5) ? 0.0 : 1.0;
    case 2:
      return g.unit();
    case 3:
      return std::ldexp(1.0, (int)g.range(-30, 30));
    case 4:
      return g.chance(0.3) ? 0.0 : std::ldexp(g.unit(), (int)g.range(-300, 300));
    case 5:
      return g.chance(0.7) ? 0.0 : std::ldexp(g.unit(), -900);
    case 6:
      return std::ldexp((double)g.range(0, 8), -3);
    default:
      return g.chance(0.5) ? 1e-17 : 1.0;
  }
}

/// Weights in one of the containers
struct Weights
{
  int box = 0; // 0 vector<double>, 1 vector<float>, 2 array<double, 5>, 3 deque<double>, 4 vector<long double>
  std::vector<double> w;
  std::vector<double> psum; // what the containers hold for cumulative weights
};

Weights
make(int64_t box, int64_t kind, int64_t n, int64_t seed)
{
  Weights x;
  x.box = (int)((uint64_t)box % 5);
  Rng g((uint64_t)seed);
  // more entries than a small index can count, now and then
  size_t len = x.box == 2 ? 5 : n >= 256 ? std::min<uint64_t>((uint64_t)n, 70000) : 1 + (uint64_t)n % 40;
  bool positive = false;
  for (size_t i = 0; i < len; i++) {
    double v = weight(g, kind);
    if (x.box == 1) {
      // ordinary magnitudes for float
      if (v != 0)
        v = (uint64_t)kind % 9 == 8 ? std::ldexp((double)g.range(1, 5), -149) : std::ldexp(0.5 + g.unit() / 2, (int)g.range(-20, 20));
      v = (double)(float)v;
    }
    positive = positive || v > 0;
    x.w.push_back(v);
  }
  if (!positive)
    x.w[(uint64_t)seed % len] = (uint64_t)kind % 9 == 8 ? std::ldexp(1.0, x.box == 1 ? -149 : -1074) : 1.0;
  return x;
}

template<class F>
auto
with_box(const Weights& x, F&& f)
{
  switch (x.box) {
    case 1:
      return f(std::vector<float>(x.w.begin(), x.w.end()));
    case 2: {
      std::array<double, 5> a;
      std::copy(x.w.begin(), x.w.end(), a.begin());
      return f(a);
    }
    case 3:
      return f(std::deque<double>(x.w.begin(), x.w.end()));
    case 4:
      return f(std::vector<long double>(x.w.begin(), x.w.end()));
    default:
      return f(std::vector<double>(x.w));
  }
}

template<class G>
struct Sim
{
  Run& r;
  static constexpr int N = 3;
  Weights wt[N];
  G gen[N], start[N];
  struct Call
  {
    Weights w;
    int g, mode;
    double p;
    int64_t result;
    uint64_t words;
  };
  std::vector<Call> log;
  bool hit_extreme = false;

  /// one selection; mode 0 weights, 1 cumulative, 2 probability, 3 probability in float
  int64_t choose(const Weights& x, G& g, int mode, double p, int64_t nth, bool& oom, int busy = 0)
  {
    // busy: 1 the generator makes choices of its own, 2 it fails
    oom = false;
    if (mode >= 2) {
      if (busy) {
        Busy<G, std::vector<double>> b{ g, { 1, 0, 2, 5 }, busy == 2 };
        return mode == 2 ? bwsl::choose_with_probability(p, b) : bwsl::choose_with_probability((float)p, b);
      }
      return mode == 2 ? bwsl::choose_with_probability(p, g) : bwsl::choose_with_probability((float)p, g);
    }
    return with_box(x, [&](auto c) -> int64_t {
      if (mode == 1)
        std::partial_sum(c.begin(), c.end(), c.begin());
      const auto kept = c;
      const auto& arg = c;
      int64_t k = -1;
      try {
        if (busy) {
          auto other = c;
          std::fill(other.begin(), other.end(), 1);
          other[other.size() - 1] = 3;
          Busy<G, decltype(c)> b{ g, other, busy == 2 };
          try {
            k = (int64_t)(mode ? bwsl::choose_between_psums(arg, b) : bwsl::choose_between(arg, b));
          } catch (const WordFailure&) {
            if (c != kept)
              r.fail("modified", "a choice that failed changed the weights");
            throw;
          }
        } else {
          sim::mem::Scope scope(nth);
          k = (int64_t)(mode ? bwsl::choose_between_psums(arg, g) : bwsl::choose_between(arg, g));
        }
      } catch (const std::bad_alloc&) {
        oom = true;
        r.fault("out-of-memory");
      }
      if (c != kept)
        r.fail("modified", "choosing changed the weights");
      if (oom)
        return -1;
      if (k < 0 || (size_t)k >= x.w.size())
        r.fail("range", "choosing among %zu weights (%s) returned index %lld", x.w.size(), mode ? "cumulative" : "plain", (long long)k);
      if (!(x.w[(size_t)k] > 0))
        r.fail("zero", "index %lld was chosen although its weight is zero (%s)", (long long)k, mode ? "cumulative" : "plain");
      return k;
    });
  }

  void share(const Weights& x, int mode, double p, int64_t seed, int64_t calls)
  {
    if (mode < 2) {
      quad sum = 0;
      for (double v : x.w)
        sum += v;
      if (sum < (x.box == 1 ? (quad)1e-30 : (quad)1e-290)) {
        // too small for shares to be represented
        r.probe("share-of-the-smallest-weights");
        return;
      }
    }
    // evenly spread words (or, when a choice takes several words, random ones)
    G g;
    const uint64_t span = (uint64_t)(G::max() - G::min());
    const bool large = mode < 2 && x.w.size() > 5000;
    uint64_t K = 512 + (uint64_t)calls % (large ? 300 : 2048);
    g.mode = 6;
    g.rng = Rng((uint64_t)seed);
    g.step = span / K + 1;
    K = span / g.step + 1;
    g.offset = (uint64_t)G::min() + Rng((uint64_t)seed).below(std::min<uint64_t>(g.step, span - g.step * (K - 1) + 1));
    bool oom;
    choose(x, g, mode, p, 0, oom);
    const bool single = g.words == 1;
    g.words = 0;
    if (!single) {
      g.mode = 0;
      K = large ? 1200 : 6000;
    }
    std::vector<uint64_t> n(mode >= 2 ? 2 : x.w.size());
    for (uint64_t i = 0; i < K; i++)
      n[(size_t)choose(x, g, mode, p, 0, oom)]++;
    quad total = 0;
    for (double v : x.w)
      total += v;
    for (size_t i = 0; i < n.size(); i++) {
      double q = mode >= 2 ? (i ? p : 1 - p) : (double)(x.w[i] / total);
      double want = q * (double)K;
      double tol = single ? 4 + (mode >= 2 ? 0 : (double)K * 1e-6 * (double)x.w.size()) : std::sqrt(2 * 32 * want * (1 - q)) + 32;
      if (std::fabs((double)n[i] - want) > tol)
        r.fail("share", "entry %zu, with %.9g of the weight, was chosen %llu times in %llu (%s words, expected %.1f)", i, q, (unsigned long long)n[i], (unsigned long long)K, single ? "evenly spread" : "random", want);
    }
    // every number of first entries together, as well
    quad first = 0;
    uint64_t have = 0;
    for (size_t i = 0; mode < 2 && i < n.size(); i++) {
      first += x.w[i];
      have += n[i];
      double q = (double)(first / total), want = q * (double)K;
      double tol = single ? 8 + (double)K * 0.02 : std::sqrt(2 * 32 * want * std::max(0.0, 1 - q)) + 32;
      if (std::fabs((double)have - want) > tol)
        r.fail("share", "the first %zu of %zu entries, with %.9g of the weight, were chosen %llu times in %llu (expected %.1f)", i + 1, n.size(), q, (unsigned long long)have, (unsigned long long)K, want);
    }
    if (x.w.size() > 255 && mode < 2)
      r.probe(x.w.size() > 65535 ? "share-of-more-than-65535" : "share-of-more-than-255");
    r.probe(single ? "share-evenly-spread" : "share-random");
  }

  void run(const Plan& p)
  {
    for (int k = 0; k < N; k++) {
      wt[k] = make(0, 2, 3, k);
      gen[k].rng = Rng((uint64_t)k);
      start[k] = gen[k];
    }
    for (auto& s : p.steps) {
      r.mixs(s.op);
      int i = (int)((uint64_t)s.at(0) % N), j = (int)((uint64_t)s.at(1) % N);
      if (s.op == "weights") {
        wt[i] = make(s.at(1), s.at(2), s.at(3), s.at(4));
        if (wt[i].w.size() > 255)
          r.probe(wt[i].w.size() > 65535 ? "more-than-65535-entries" : "more-than-255-entries");
      } else if (s.op == "seed") {
        // the calls made so far with this generator are checked, then it starts again
        repeat(i);
        gen[i] = G();
        gen[i].rng = Rng((uint64_t)s.at(1));
        gen[i].mode = (int)((uint64_t)s.at(2) % 6);
        start[i] = gen[i];
      } else if (s.op == "choose") {
        int mode = (int)((uint64_t)s.at(2) % 4);
        double q = prob(s.at(4));
        for (int64_t n = 0; n < std::min<int64_t>(wt[i].w.size() > 5000 ? 6 : 64, s.at(3)); n++) {
          bool oom;
          auto before = gen[j];
          auto ex = gen[j].extreme;
          int64_t k;
          if (s.at(6) == 2 && n % 3 == 0) {
            try {
              (void)choose(wt[i], gen[j], mode, q, 0, oom, 2);
              if (gen[j].words != before.words)
                r.fail("generator", "a choice took words although the generator failed");
            } catch (const WordFailure&) {
              r.fault("generator-failure");
            }
            gen[j] = before;
          }
          k = choose(wt[i], gen[j], mode, q, n == 0 ? s.at(5) : 0, oom, s.at(6) == 1);
          if (s.at(6) == 1)
            r.fault("generator-uses-the-library");
          if (oom) {
            gen[j] = before; // whatever it took
            continue;
          }
          if (gen[j].extreme != ex) {
            r.fault("extreme-word");
            hit_extreme = true;
          }
          r.mix((uint64_t)k);
          if (mode >= 2) {
            if (q == 0 && k)
              r.fail("probability-zero", "a choice with probability 0 succeeded");
            if (q == 1 && !k)
              r.fail("probability-one", "a choice with probability 1 failed");
          }
          log.push_back({ mode < 2 ? wt[i] : Weights(), j, mode, q, k, gen[j].words - before.words });
        }
      } else if (s.op == "share") {
        share(wt[i], (int)((uint64_t)s.at(1) % 4), prob(s.at(2)), s.at(3), s.at(4));
      }
      uint64_t h = sim::hmix(log.size(), hit_extreme);
      for (auto& g : gen)
        h = sim::hmix(h, g.words);
      r.state(h);
    }
    for (int k = 0; k < N; k++)
      repeat(k);
    if (hit_extreme)
      r.nontrivial();
  }

  static double prob(int64_t v)
  {
    switch ((uint64_t)v % 5) {
      case 0:
        return 0;
      case 1:
        return 1;
      case 2:
        return 0.5;
      default:
        return (double)(float)((double)((uint64_t)v % 4096) / 4096.0);
    }
  }

  /// The same words once more, without the calls that came between them
  void repeat(int j)
  {
    G g = start[j];
    std::vector<Call> rest;
    for (auto& c : log) {
      if (c.g != j) {
        rest.push_back(c);
        continue;
      }
      bool oom;
      auto before = g.words;
      auto k = choose(c.w, g, c.mode, c.p, 0, oom);
      if (k != c.result || g.words - before != c.words)
        r.fail("repeat", "the same words of the generator led to choice %lld (%llu words) and then to %lld (%llu words)", (long long)c.result, (unsigned long long)c.words, (long long)k, (unsigned long long)(g.words - before));
      r.probe("repeated");
    }
    log = rest;
  }
};

void
exec(const Plan& p, Run& r)
{
  warm_up();
  switch ((uint64_t)p.c(0) % 4) {
    case 0: {
      Sim<G64> s{ r };
      return s.run(p);
    }
    case 1: {
      Sim<G32> s{ r };
      return s.run(p);
    }
    case 2: {
      Sim<G31> s{ r };
      return s.run(p);
    }
    default: {
      Sim<G48> s{ r };
      return s.run(p);
    }
  }
}

Plan
gen_plan(Rng& g, bool thorough)
{
  Plan p;
  p.cfg = { g.chance(0.5) ? 0 : g.range(0, 3) };
  for (int n = (int)g.range(4, thorough ? 60 : 30); n > 0; n--) {
    int64_t i = g.range(0, 2), seed = (int64_t)(g.next() >> 1);
    switch (g.below(12)) {
      case 0:
      case 1:
      case 2:
        p.add("weights", { i, g.range(0, 4), g.chance(0.9) ? g.range(0, 7) : 8, g.chance(0.6) ? g.range(0, 5) : g.chance(0.04) ? (g.chance(0.06) ? g.range(65530, 70000) : g.range(256, 1400)) : g.range(0, 39), seed });
        break;
      case 3:
      case 4:
        p.add("seed", { i, seed, g.range(0, 5) });
        break;
      case 5:
        p.add("share", { i, g.range(0, 3), g.range(0, 20000), seed, g.range(0, 2047) });
        break;
      default:
        p.add("choose", { i, g.range(0, 2), g.range(0, 3), g.range(1, 40), g.range(0, 20000), g.chance(0.1) ? g.range(1, 2) : 0, g.chance(0.3) ? g.range(1, 2) : 0 });
    }
  }
  return p;
}
}

const sim::CheckDef&
sim::check()
{
  static CheckDef d;
  d.property = "C12";
  d.rule = "Each run makes choices among weights and cumulative weights (five container/number types, 1 to 40 entries, zeros anywhere; now and then up to 70000) and with probabilities, drawing from three generators (64, 48, 32 bit and minstd-like) whose words the simulator supplies: random, with extreme words mixed in, stuck at the minimum or maximum, alternating, at powers of two; generators fail to deliver a word, or make choices of their own while they are asked for one; allocations fail. Shares are measured with evenly spread words (within 4 calls of exact), or with random ones when a choice takes several. Every generator's words are finally supplied once more without the calls of the others in between, and must lead to the same choices. Non-trivial: an extreme word was used in a choice.";
  d.state_measure = "(choices logged, words taken from each generator, extreme word seen)";
  d.real = { "bwsl/MathUtils.hpp", "libstdc++ distributions" };
  d.stub = { "random number generators", "operator new (failure injection)" };
  d.assumptions = { "weights are finite and not negative and their total is positive and finite; shares are asked for normal totals only", "cumulative weights are rounded partial sums" };
  d.must_fire = { "extreme-word", "out-of-memory", "generator-failure", "generator-uses-the-library", "share-evenly-spread", "share-random", "repeated", "more-than-255-entries", "more-than-65535-entries", "share-of-more-than-255", "share-of-the-smallest-weights" };
  d.quick_runs = 10000;
  d.thorough_runs = 200000;
  d.generate = gen_plan;
  d.execute = exec;
  return d;
}
