// C01: a run resumed from a checkpoint ends exactly like one never interrupted.
#include "common.hpp"
#include <bwsl/Accumulators.hpp>
#include <bwsl/HistAccumulator.hpp>
#include <bwsl/MathUtils.hpp>
#include <bwsl/ObservableGroup.hpp>
#include <bwsl/RNGUtils.hpp>
#include <bwsl/accumulators/NaiveIntegerAccumulator.hpp>
#include <bwsl/mcutils/MoveStats.hpp>
#include <fstream>
#include <memory>

using namespace chk;
namespace acc = bwsl::accumulators;
namespace fs = sim::fs;

namespace {

const char* const kOut = "/simfs/run.csv";
const char* const kCkpt = "/simfs/ckpt";
const char* const kTmp = "/simfs/ckpt.tmp";

template<class K>
K
key(int i);
template<>
std::string
key<std::string>(int i)
{
  static const char* names[] = { "energy", "N", "winding 1", "a", "z_last", "" };
  return names[i % 6];
}
template<>
int
key<int>(int i)
{
  static const int v[] = { 0, -7, 1000000, 3, 12, -1 };
  return v[i % 6];
}

/// All the state of a Monte Carlo run.
template<class K, class G>
struct World
{
  acc::KahanAccumulator kahan;
  acc::NeumaierAccumulator neumaier;
  acc::KnuthWelfordAccumulator welford;
  acc::WestAccumulator west;
  bwsl::NaiveInteger naive;
  bwsl::HistAccumulator hist;
  bwsl::montecarlo::MoveStats moves;
  bwsl::ObservableGroup<K> group;
  G rng;
  std::vector<K> keys;

  World(uint64_t seed, size_t bins, int nobs)
    : hist(bins)
    , moves("worm")
    , rng(seed)
  {
    for (int i = 0; i < nobs; i++)
      keys.push_back(key<K>(i));
    group = bwsl::ObservableGroup<K>(kOut, keys);
  }

  template<class Ar>
  void part(Ar& ar, int which)
  {
    switch (which) {
      case 0:
        ar & kahan;
        break;
      case 1:
        ar & neumaier;
        break;
      case 2:
        ar & welford;
        break;
      case 3:
        ar & west;
        break;
      case 4:
        ar & naive;
        break;
      case 5:
        ar & hist;
        break;
      case 6:
        ar & moves;
        break;
      case 7:
        ar & group;
        break;
      case 8:
        ar & rng;
        break;
    }
  }
  static constexpr int parts = 9;
};

/// Everything an object answers, bit by bit. The group has no queries but its
/// output: print a copy and look at the file.
template<class W>
std::vector<uint64_t>
observe(W& w)
{
  std::vector<uint64_t> o;
  auto d = [&](double x) { o.push_back(std::isnan(x) ? 0x7ff8dead : (uint64_t)dbits(x)); };
  d(w.kahan.Sum());
  d(w.kahan.Mean());
  o.push_back(w.kahan.Count());
  d(w.neumaier.Sum());
  d(w.neumaier.Mean());
  o.push_back(w.neumaier.Count());
  d(w.welford.Mean());
  d(w.welford.Sum());
  d(w.welford.Variance(true));
  d(w.welford.Variance(false));
  d(w.welford.ScaledVariance());
  d(w.welford.Error(true));
  o.push_back(w.welford.Count());
  d(w.west.Mean());
  d(w.west.Sum());
  d(w.west.PopulationVariance());
  d(w.west.SampleFrequencyVariance());
  d(w.west.SampleReliabilityVariance());
  o.push_back(w.west.Count());
  o.push_back((uint64_t)w.naive.Sum());
  d(w.naive.Mean());
  d(w.naive.Variance(true));
  o.push_back(w.naive.Count());
  o.push_back(w.hist.GetNbins());
  o.push_back(w.hist.GetCount());
  for (size_t i = 0; i < w.hist.GetNbins(); i++) {
    d(w.hist.GetResult(i));
    o.push_back(w.hist.GetCount(i));
  }
  for (double x : w.hist.GetResults())
    d(x);
  d(w.moves.GetAcceptedRatio());
  d(w.moves.GetRejectedRatio());
  d(w.moves.GetImpossibleRatio());
  d(w.moves.GetAverageProbability());
  o.push_back(sim::hstr(w.moves.GetName()));
  { // is a proposal pending?
    auto m = w.moves;
    bool pending = false;
    try {
      m.Propose();
    } catch (const bwsl::montecarlo::exception::MoveInvalidSequence&) {
      pending = true;
    }
    o.push_back(pending);
  }
  {
    auto had = fs::exists(kOut);
    auto old = fs::get(kOut);
    auto g = w.group;
    g.PrintHeaders();
    g.PrintAndReset(17);
    o.push_back(sim::hstr(fs::get(kOut)));
    if (had)
      fs::put(kOut, old);
    else
      fs::erase(kOut);
  }
  {
    auto g = w.rng;
    for (int i = 0; i < 3; i++)
      o.push_back((uint64_t)g());
  }
  return o;
}

/// A statistics object that has lasted very long: the checkpoint of a short
/// history with its count replaced. A checkpoint that holds such a count has to
/// be restored.
template<class T, class F, class C>
void
age(Run& r, T& x, F one, C count, uint64_t n, const char* what)
{
  T y;
  for (int k = 0; k < 1013; k++)
    one(y);
  size_t done = 0;
  auto t = reworded(save(y, 0), { { "1013", std::to_string(n) } }, done);
  if (!done)
    return; // the archive does not show the count
  T z = x; // the name of a move is not archived
  try {
    load(z, t, 0);
  } catch (const std::exception& e) {
    r.fail("aged", "a checkpoint of a %s with %llu values is refused: %s", what, (unsigned long long)n, e.what());
  }
  if (count(z) != n)
    r.fail("aged", "a checkpoint of a %s with %llu values is restored with %llu", what, (unsigned long long)n, (unsigned long long)count(z));
  x = z;
  r.probe("aged");
}

/// One step of the program under test; deterministic given the state.
template<class W>
void
advance(Run& r, W& w, const Step& s, bool first)
{
  using K = typename decltype(w.keys)::value_type;
  if (s.op == "mc") {
    static const std::vector<double> choices{ 0.25, 0.5, 0.125, 0.125 };
    std::uniform_real_distribution<double> u(0.0, 1.0);
    // energies in any unit
    const double unit = std::ldexp(1.0, (int64_t[]){ 0, 0, -300, 300 }[(uint64_t)s.at(1) / 9 % 4]);
    for (int64_t k = 0; k < std::min<int64_t>(s.at(0), 500); k++) {
      auto c = bwsl::choose_between(choices, w.rng);
      double x = u(w.rng) - 0.25, scale = std::ldexp(1.0, (int)(w.rng() % (s.at(1) & 1 ? 40 : 120)) - (s.at(1) & 1 ? 20 : 60)) * unit;
      w.kahan.Add(x * scale);
      w.neumaier.Add(x * scale);
      w.welford.Add(x + 1e6);
      w.west.Add(x, u(w.rng));
      w.naive.Add(((long)(w.rng() % 1000) - 300) * (s.at(1) & 2 ? 1 : 1000003));
      w.hist.ForceAdd(w.rng() % (3 + (uint64_t)s.at(1) % 6), x);
      try {
        w.moves.Propose();
      } catch (const bwsl::montecarlo::exception::MoveInvalidSequence&) {
      }
      if (c == 0)
        w.moves.Accept(u(w.rng));
      else if (c == 1)
        w.moves.Reject(u(w.rng));
      else if (c == 2)
        w.moves.Impossible();
      // otherwise the proposal stays pending
      for (auto& q : w.keys)
        if (bwsl::choose_with_probability(0.8, w.rng))
          w.group.Measure(q, x * scale);
    }
  } else if (s.op == "odd") {
    // values at the ends of the range and beyond it
    static const double values[] = { -0.0, std::numeric_limits<double>::denorm_min(), -3 * std::numeric_limits<double>::min(), std::numeric_limits<double>::max(), -std::numeric_limits<double>::max(), INFINITY, -INFINITY, NAN };
    const double x = values[(uint64_t)s.at(0) % 8], y = values[(uint64_t)s.at(0) / 8 % 8];
    const auto mask = (uint64_t)s.at(1);
    if (mask & 1)
      w.kahan.Add(x);
    if (mask & 2)
      w.neumaier.Add(x);
    if (mask & 4)
      w.welford.Add(x);
    if (mask & 8)
      w.west.Add(x, y);
    if (mask & 16)
      w.hist.ForceAdd(mask % 5, x);
    if (mask & 32) {
      try {
        w.moves.Propose();
      } catch (const bwsl::montecarlo::exception::MoveInvalidSequence&) {
      }
      w.moves.Accept(std::fabs(x));
    }
    if (mask & 64 && !w.keys.empty())
      w.group.Measure(w.keys[mask % w.keys.size()], x);
    if (!std::isfinite(x))
      r.probe("not-finite");
  } else if (s.op == "print") {
    if (first)
      w.group.PrintHeaders();
    w.group.PrintAndReset((size_t)(s.at(0) & 15) + 1);
  } else if (s.op == "addobs") {
    auto q = key<K>((int)((uint64_t)s.at(0) % 6));
    w.group.AddObservable(q);
    if (std::find(w.keys.begin(), w.keys.end(), q) == w.keys.end())
      w.keys.push_back(q);
  } else if (s.op == "age") {
    const uint64_t n = (uint64_t)s.at(1) >> (1 + (uint64_t)s.at(1) % 50);
    if (n < 2000)
      return;
    auto zero = [](auto& a) { a.Add(0.0); };
    auto count = [](auto& a) { return a.Count(); };
    switch ((uint64_t)s.at(0) % 7) {
      case 0:
        return age(r, w.kahan, zero, count, n, "Kahan sum");
      case 1:
        return age(r, w.neumaier, zero, count, n, "Neumaier sum");
      case 2:
        return age(r, w.welford, zero, count, n, "Welford accumulator");
      case 3:
        return age(r, w.west, [](auto& a) { a.Add(0.0, 0.5); }, count, n, "West accumulator");
      case 4:
        return age(r, w.naive, [](auto& a) { a.Add(0L); }, count, n, "integer accumulator");
      case 5:
        return age(r, w.hist, [](auto& a) { a.ForceAdd(0, 0.0); }, [](auto& a) { return a.GetCount(); }, n, "histogram");
      case 6:
        return age(
          r, w.moves, [](auto& a) {
            a.Propose();
            a.Accept(0.0);
          },
          [n](auto& a) { return a.GetAcceptedRatio() == 1.0 ? n : 0; }, n, "move statistics");
    }
  } else if (s.op == "resize") {
    const auto n = (uint64_t)s.at(0) % 22;
    w.hist.Resize(n == 20 ? 300 : n == 21 ? 66000 : n);
  } else if (s.op == "reset") {
    switch ((uint64_t)s.at(0) % 7) {
      case 0:
        w.kahan.Reset();
        break;
      case 1:
        w.neumaier.Reset();
        break;
      case 2:
        w.welford.Reset();
        break;
      case 3:
        w.west.Reset();
        break;
      case 4:
        w.naive.Reset();
        break;
      case 5:
        w.hist.Reset();
        break;
      case 6:
        w.moves.Reset();
        break;
    }
  }
}

std::vector<int>
order(uint64_t seed, int n)
{
  std::vector<int> v;
  for (int i = 0; i < n; i++)
    v.push_back(i);
  Rng g(seed);
  for (int i = n; i > 1; i--)
    std::swap(v[i - 1], v[g.below((uint64_t)i)]);
  return v;
}

template<class W>
bool
write_checkpoint(W& w, int fmt, uint64_t ord, Run& r)
{
  bool ok = false;
  try {
    std::ofstream out(kTmp, std::ios::binary);
    if (!out)
      return false;
    auto go = [&](auto& ar) {
      for (int k : order(ord, W::parts))
        w.part(ar, k);
    };
    if (fmt & 1) {
      boost::archive::binary_oarchive ar(out);
      go(ar);
    } else {
      boost::archive::text_oarchive ar(out);
      go(ar);
    }
    out.flush();
    ok = out.good();
  } catch (const std::exception&) {
  }
  r.mix(ok);
  if (ok)
    ok = rename(kTmp, kCkpt) == 0;
  return ok;
}

template<class W>
void
read_checkpoint(W& w, int fmt, uint64_t ord)
{
  std::ifstream in(kCkpt, std::ios::binary);
  auto go = [&](auto& ar) {
    for (int k : order(ord, W::parts))
      w.part(ar, k);
  };
  if (fmt & 1) {
    boost::archive::binary_iarchive ar(in);
    go(ar);
  } else {
    boost::archive::text_iarchive ar(in);
    go(ar);
  }
}

bool
client_op(const Step& s)
{
  return s.op == "ckpt" || s.op == "crash";
}

template<class K, class G>
struct WorldX : World<K, G>
{
  using World<K, G>::World;
  WorldX()
    : World<K, G>(1, 0, 0)
  {
  }
  static constexpr uint64_t rng_max = G::max();
};

template<class K, class G>
void
run(const Plan& p, Run& r)
{
  using W = WorldX<K, G>;
  fs::reset(&r);
  const int nobs = 1 + (int)((uint64_t)p.c(1) % 4);
  const size_t bins = (uint64_t)p.c(2) % 5;
  const uint64_t seed = (uint64_t)p.c(3);
  std::vector<Step> prog;
  // boost's text archives cannot express infinities: a program that may meet
  // them uses binary ones
  bool binary = false;
  for (auto& s : p.steps)
    if (!client_op(s)) {
      prog.push_back(s);
      binary = binary || (s.op == "odd" && ((uint64_t)s.at(0) % 8 > 2 || (uint64_t)s.at(0) / 8 % 8 > 2));
    }

  // the run that is never interrupted
  std::vector<std::vector<uint64_t>> ref;
  std::vector<std::string> file;
  {
    W a(seed, bins, nobs);
    bool printed = false;
    ref.push_back(observe(a));
    file.push_back(fs::get(kOut));
    for (auto& s : prog) {
      advance(r, a, s, !printed);
      printed = printed || s.op == "print";
      ref.push_back(observe(a));
      file.push_back(fs::get(kOut));
    }
  }
  fs::erase(kOut);

  // the run that is killed and resumed
  struct Saved
  {
    size_t at = 0;
    bool exists = false, printed = false;
    int fmt = 0;
    uint64_t ord = 0;
    size_t outlen = 0;
    std::vector<K> keys;
  } saved;
  auto b = std::make_unique<W>(seed, bins, nobs);
  size_t at = 0; // next program step of b
  bool printed = false;
  auto compare = [&](const char* when) {
    auto o = observe(*b);
    for (auto v : o)
      r.mix(v);
    auto& e = ref[at];
    if (o.size() != e.size())
      r.fail("diverged", "%s, after %zu program steps: %zu answers instead of %zu (number of bins differs)", when, at, o.size(), e.size());
    for (size_t k = 0; k < o.size(); k++)
      if (o[k] != e[k])
        r.fail("diverged", "%s, after %zu program steps: answer %zu is %016llx, in the uninterrupted run %016llx", when, at, k, (unsigned long long)o[k], (unsigned long long)e[k]);
    if (fs::get(kOut) != file[at])
      r.fail("rows", "%s, after %zu program steps the output file differs from that of the uninterrupted run", when, at);
  };
  auto resume = [&](int64_t how, uint64_t dirtyseed) {
    // only what is on the disk survives
    fs::disarm();
    fs::capacity(-1);
    r.fault("crash-restart");
    auto make = [&](bool dirty) {
      auto w = std::make_unique<W>(dirty ? dirtyseed : seed, dirty ? 7 : bins, dirty ? 4 : nobs);
      if (dirty) {
        auto old = fs::get(kOut);
        auto had = fs::exists(kOut);
        Step s{ "mc", { 17, 3 } };
        advance(r, *w, s, false);
        if (dirtyseed & 1)
          w->hist.Resize(dirtyseed % 30);
        if (dirtyseed & 2) {
          // a group with other observables
          w->group = bwsl::ObservableGroup<K>("/simfs/other.csv", { key<K>(5), key<K>(4) });
          w->group.Measure(key<K>(5), 5.0);
        }
        if (had)
          fs::put(kOut, old);
      }
      return w;
    };
    if (!saved.exists) {
      b = make(false);
      at = 0;
      printed = false;
      fs::erase(kOut);
    } else {
      auto w = make(how & 1);
      r.probe(how & 1 ? "restored-into-used-objects" : "restored-into-fresh-objects");
      read_checkpoint(*w, saved.fmt, saved.ord);
      w->keys = saved.keys;
      if (how & 2) { // handed on through copies
        auto c = std::make_unique<W>(*w);
        w.reset();
        *(b = make(true)) = *c;
      } else if (how & 4) {
        b = make(true);
        *b = std::move(*w);
      } else
        b = std::move(w);
      at = saved.at;
      printed = saved.printed;
      auto out = fs::get(kOut);
      out.resize(std::min(out.size(), saved.outlen));
      if (out.empty())
        fs::erase(kOut);
      else
        fs::put(kOut, out);
    }
    compare("right after resuming");
  };
  int crashes = 0, ckpts = 0;
  for (auto& s : p.steps) {
    r.mixs(s.op);
    if (s.op == "ckpt") {
      std::vector<fs::Fault> f;
      if (s.at(2))
        f.push_back(fs::decode(s.a, 3));
      fs::arm(f);
      bool ok = write_checkpoint(*b, (int)s.at(0) | binary, (uint64_t)s.at(1), r);
      bool dead = fs::fired().crash;
      bool hurt = fs::fired().errors || dead;
      fs::disarm();
      if (!ok && !hurt)
        r.fail("checkpoint", "a checkpoint could not be written although nothing failed");
      if (ok && !dead) {
        saved = Saved{ at, true, printed, (int)s.at(0) | binary, (uint64_t)s.at(1), fs::get(kOut).size(), b->keys };
        ckpts++;
      }
      if (dead) {
        crashes++;
        resume(s.at(1), (uint64_t)s.at(1));
      } else
        compare("after writing a checkpoint");
    } else if (s.op == "crash") {
      crashes++;
      resume(s.at(0), (uint64_t)s.at(1));
      // half of the time the lost work is redone at once, otherwise a second
      // crash can come first
    } else {
      // redo what was lost, then this step
      size_t target = 0;
      for (auto& q : p.steps) {
        if (&q == &s)
          break;
        target += !client_op(q);
      }
      while (at <= target) {
        advance(r, *b, prog[at], !printed);
        printed = printed || prog[at].op == "print";
        at++;
        compare("after a step");
      }
    }
    r.state(sim::hmix(sim::hmix(at, saved.exists ? at - std::min(at, saved.at) : 99), (uint64_t)crashes * 8 + (uint64_t)std::min(ckpts, 7)));
  }
  while (at < prog.size()) {
    advance(r, *b, prog[at], !printed);
    printed = printed || prog[at].op == "print";
    at++;
    compare("while finishing");
  }
  if (crashes && ckpts)
    r.nontrivial();
}

Plan
gen(Rng& g, bool thorough)
{
  Plan p;
  p.cfg = { g.range(0, 3), g.range(0, 3), g.range(0, 4), (int64_t)(g.next() >> 1) };
  int n = (int)g.range(4, thorough ? 40 : 22);
  const bool tiny = g.chance(0.2), wild = g.chance(0.12);
  auto fault = [&](std::vector<int64_t> a) {
    fs::Fault f;
    f.op = fs::kWrite;
    f.nth = g.range(1, 12);
    f.count = g.range(1, 3);
    static const int whats[] = { fs::kEINTR, fs::kShort, fs::kEIO, fs::kENOSPC, fs::kCrash, fs::kCrash };
    f.what = whats[g.below(6)];
    f.arg = g.range(1, 500);
    if (g.chance(0.1)) {
      f.op = fs::kOpen;
      f.nth = 1;
      f.what = fs::kOpenErr;
    }
    for (auto v : fs::encode(f))
      a.push_back(v);
    return a;
  };
  for (int k = 0; k < n; k++) {
    if ((tiny || wild) && g.chance(0.2)) {
      p.add("odd", { g.range(0, wild ? 7 : 2) + 8 * g.range(0, wild ? 7 : 2), g.range(0, 127) });
      continue;
    }
    switch (g.below(13)) {
      case 12:
        p.add("age", { g.range(0, 6), (int64_t)(g.next() >> 1) });
        break;
      case 0:
      case 1:
      case 2:
        p.add("mc", { g.chance(0.3) ? g.range(0, 3) : g.range(1, 60), g.range(0, 35) });
        break;
      case 3:
      case 4:
        p.add("print", { g.range(0, 15) });
        break;
      case 5:
        p.add("addobs", { g.range(0, 5) });
        break;
      case 6:
        p.add(g.chance(0.5) ? "resize" : "reset", { g.chance(0.01) ? 21 : g.range(0, 20) });
        break;
      case 7:
      case 8:
      case 9: {
        std::vector<int64_t> a = { g.range(0, 1), (int64_t)(g.next() >> 1), g.chance(0.35) ? 1 : 0 };
        p.add("ckpt", a[2] ? fault(a) : a);
        break;
      }
      default:
        p.add("crash", { g.range(0, 7), (int64_t)(g.next() >> 1) });
    }
  }
  return p;
}

void
exec(const Plan& p, Run& r)
{
  switch ((uint64_t)p.c(0) % 4) {
    case 0:
      return run<std::string, std::mt19937_64>(p, r);
    case 1:
      return run<int, std::mt19937>(p, r);
    case 2:
      return run<std::string, std::mt19937>(p, r);
    default:
      return run<int, std::mt19937_64>(p, r);
  }
}
}

const sim::CheckDef&
sim::check()
{
  static CheckDef d;
  d.property = "C01";
  d.rule = "Each run simulates a Monte Carlo program (all accumulators, histogram, move statistics, observable group, generator) of up to 40 steps; checkpoints in text or binary form are written to a simulated disk whose writes fail, are cut or are ended by a crash; crashes at arbitrary points drop all memory, the newest complete checkpoint is restored into fresh or used objects and the lost steps are redone. Every answer is compared bit by bit with an uninterrupted twin after every step. Non-trivial: at least one crash and one complete checkpoint.";
  d.state_measure = "(program position, steps since the newest checkpoint, crashes, checkpoints)";
  d.real = { "bwsl accumulators, HistAccumulator, MoveStats, ObservableGroup, RNGUtils, choose_between", "boost archives and serialization of vector/map/string", "libstdc++ file streams" };
  d.stub = { "disk and system calls (in memory, with faults)", "process death (objects destroyed, disk frozen)", "the driver program" };
  d.assumptions = { "binary archives where infinities or NaN may occur (boost's text archives cannot express them)", "the client writes a checkpoint to a temporary file, checks the stream and renames it", "on resume the client truncates the output file to its length at the checkpoint" };
  d.must_fire = { "crash-restart", "write-crash", "write-EIO", "write-ENOSPC", "write-EINTR", "write-short", "restored-into-used-objects", "restored-into-fresh-objects", "aged", "not-finite" };
  d.quick_runs = 16000;
  d.thorough_runs = 300000;
  d.generate = gen;
  d.execute = exec;
  return d;
}
