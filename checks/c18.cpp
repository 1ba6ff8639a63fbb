// C18: measuring objects are values: copies are complete and independent.
#include "common.hpp"
#include <boost/serialization/map.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>
#include <bwsl/Accumulators.hpp>
#include <bwsl/HistAccumulator.hpp>
#include <bwsl/ObservableGroup.hpp>
#include <bwsl/accumulators/NaiveIntegerAccumulator.hpp>
#include <bwsl/mcutils/MoveStats.hpp>
#include <algorithm>
#include <memory>

using namespace chk;
namespace acc = bwsl::accumulators;
namespace fs = sim::fs;
using bwsl::HistAccumulator;
using bwsl::NaiveInteger;
using bwsl::montecarlo::MoveStats;

namespace {

// The reference never copies, moves or assigns: the history of an object is
// kept as a list of deeds, and a fresh object goes through them again.
struct Deed
{
  int what; // 0 feed, 1 reset, 2 print
  uint64_t seed;
  int n;
};
struct History
{
  uint64_t born = 0; // what it was constructed from
  std::vector<Deed> deeds;
};

template<class K>
K
key(uint64_t i)
{
  if constexpr (std::is_same_v<K, std::string>) {
    static const char* names[] = { "energy", "a rather long name of an observable, for no small buffer", "winding 1", "" };
    return names[i % 4];
  } else
    return (K)(i % 4 * 1000003) - 1000;
}

template<class T>
constexpr bool is_group = std::is_same_v<T, bwsl::ObservableGroup<int>> || std::is_same_v<T, bwsl::ObservableGroup<std::string>>;

template<class T>
T
fresh(uint64_t seed)
{
  static const char* const files[] = { "/simfs/a.csv", "/simfs/another file with a long name, beyond any small buffer.csv", "/simfs/b" };
  if constexpr (std::is_same_v<T, HistAccumulator>)
    return T((size_t)(seed % 7));
  else if constexpr (std::is_same_v<T, MoveStats>)
    return seed % 3 == 0 ? T() : T(seed % 3 == 1 ? "worm" : "a move whose name does not fit into any small buffer");
  else if constexpr (std::is_same_v<T, bwsl::ObservableGroup<int>>)
    return T(files[seed % 3], { key<int>(0), key<int>(seed / 3 % 4) });
  else if constexpr (std::is_same_v<T, bwsl::ObservableGroup<std::string>>)
    return T(files[seed % 3], { key<std::string>(0), key<std::string>(seed / 3 % 4) });
  else
    return T();
}

template<class A>
auto
feed(A& a, Rng& g) -> decltype(a.Sum(), void())
{
  double x = value(g, (int)g.below(8)), w = g.unit();
  if constexpr (std::is_same_v<A, NaiveInteger>)
    a.Add((long)g.range(-9999, 9999));
  else {
    // now and then values that cancel, and leave only what was lost on the way
    const double big = g.below(10) ? 0.0 : std::ldexp(1.0, (int)g.range(50, 300));
    for (double y : { big, x, -big }) {
      if (big == 0.0 && y != x)
        continue;
      if constexpr (std::is_same_v<A, acc::WestAccumulator>)
        a.Add(y, w);
      else
        a.Add(y);
    }
  }
}
void
feed(HistAccumulator& h, Rng& g)
{
  double x = value(g, (int)g.below(8));
  auto k = g.below(12);
  auto what = g.below(40);
  if (what == 0)
    h.Resize(k);
  else if (what < 10 && k < h.GetNbins())
    h.Add(k, x);
  else {
    const double big = g.below(10) ? 0.0 : std::ldexp(1.0, (int)g.range(50, 300));
    h.ForceAdd(k, big);
    h.ForceAdd(k, x);
    h.ForceAdd(k, -big);
  }
}
void
feed(MoveStats& m, Rng& g)
{
  double p = g.unit();
  auto k = g.below(5);
  try {
    if (k == 0)
      m.Propose();
    else if (k == 1)
      m.Add(bwsl::montecarlo::MoveResult::Accept(p));
    else if (k == 2)
      m.Impossible();
    else if (k == 3)
      m.Accept(p);
    else
      m.Reject(p);
  } catch (const bwsl::montecarlo::exception::MoveInvalidSequence&) {
  }
}
template<class K>
void
feed(bwsl::ObservableGroup<K>& o, Rng& g)
{
  double x = value(g, (int)g.below(8));
  auto k = key<K>(g.below(4));
  if (g.below(9) == 0)
    o.AddObservable(k);
  try {
    o.Measure(k, x);
  } catch (const std::out_of_range&) {
  }
}

/// Everything a user can learn from an object without touching it, and what
/// its checkpoint holds.
using Digest = std::vector<uint64_t>;
void
put(Digest& o, double x)
{
  o.push_back(std::isnan(x) ? 0x7ff8dead : (uint64_t)dbits(x));
}
template<class T>
Digest
digest(const T& x)
{
  sim::mem::Pause pause;
  Digest o;
  if constexpr (std::is_same_v<T, HistAccumulator>) {
    o.push_back(x.GetNbins());
    o.push_back(x.GetCount());
    auto all = x.GetResults();
    for (size_t i = 0; i < x.GetNbins(); i++) {
      put(o, all[i]);
      put(o, x.GetResult(i));
      o.push_back(x.GetCount(i));
    }
  } else if constexpr (std::is_same_v<T, MoveStats>) {
    o.push_back(sim::hstr(x.GetName()));
    put(o, x.GetAcceptedRatio());
    put(o, x.GetRejectedRatio());
    put(o, x.GetImpossibleRatio());
    put(o, x.GetAverageProbability());
  } else if constexpr (is_group<T>) {
    x.PrintHeaders();
    for (auto& f : fs::list()) {
      o.push_back(sim::hstr(f));
      o.push_back(sim::hstr(fs::get(f)));
      fs::erase(f);
    }
  } else {
    o.push_back(x.Count());
    put(o, (double)x.Sum());
    put(o, x.Mean());
    if constexpr (std::is_same_v<T, NaiveInteger> || std::is_same_v<T, acc::KnuthWelfordAccumulator>) {
      put(o, x.Variance(true));
      put(o, x.Variance(false));
      put(o, x.ScaledVariance());
    }
    if constexpr (std::is_same_v<T, acc::WestAccumulator>) {
      put(o, x.PopulationVariance());
      put(o, x.SampleFrequencyVariance());
      put(o, x.SampleReliabilityVariance());
    }
  }
  // NaNs have many spellings
  for (auto& w : words(save(x, 0)))
    o.push_back(sim::hstr(w.find("nan") == std::string::npos ? w : "nan"));
  return o;
}

/// The deed itself; for a row, what was printed
template<class T>
uint64_t
act(T& x, const Deed& d)
{
  if (d.what == 0) {
    Rng g(d.seed);
    for (int k = 0; k < d.n; k++)
      feed(x, g);
  } else if constexpr (is_group<T>) {
    x.PrintAndReset(17);
    uint64_t h = 0;
    for (auto& f : fs::list()) {
      h = sim::hmix(sim::hmix(h, sim::hstr(f)), sim::hstr(fs::get(f)));
      fs::erase(f);
    }
    return h;
  } else
    x.Reset();
  return 0;
}

template<class T>
struct Slot
{
  History h;
  bool any = false; // moved from, or the target of a copy that failed
  Digest expect;

  void born(uint64_t seed)
  {
    h = History{ seed, {} };
    any = false;
    settle();
  }
  uint64_t deed(const Deed& d)
  {
    h.deeds.push_back(d);
    return settle();
  }
  /// go through the history again
  uint64_t settle()
  {
    std::unique_ptr<T> x(new T(fresh<T>(h.born)));
    uint64_t last = 0;
    for (auto& d : h.deeds)
      last = act(*x, d);
    expect = digest(*x);
    return last;
  }
};

template<class T>
struct Sim
{
  Run& r;
  static constexpr int N = 4;
  std::unique_ptr<T> x[N];
  Slot<T> ref[N];
  std::vector<T> bag;
  std::vector<Slot<T>> bagref;
  uint64_t hurt = 0, copies = 0;

  void verify(const char* when)
  {
    for (int i = 0; i < N; i++) {
      if (ref[i].any)
        continue;
      check(*x[i], ref[i], "object", i, when);
    }
    if (bag.size() != bagref.size())
      r.fail("container", "%s: the container holds %zu objects instead of %zu", when, bag.size(), bagref.size());
    for (size_t k = 0; k < bag.size(); k++)
      if (!bagref[k].any)
        check(bag[k], bagref[k], "contained object", (int)k, when);
  }
  void check(const T& x, const Slot<T>& s, const char* which, int i, const char* when)
  {
    auto d = digest(x);
    for (auto v : d)
      r.mix(v);
    if (d != s.expect) {
      size_t k = 0;
      while (k < d.size() && k < s.expect.size() && d[k] == s.expect[k])
        k++;
      r.fail("differs", "%s %d %s: answer %zu is not that of an object with the same history that was never copied", which, i, when, k);
    }
  }

  /// true: done; false: memory ran out
  template<class F>
  bool starved(const Step& s, const char* what, F&& f)
  {
    uint64_t oom = 0;
    bool threw = false;
    try {
      sim::mem::Scope scope(s.at(4), s.at(5) & 1);
      try {
        f();
      } catch (...) {
        oom = sim::mem::failures();
        throw;
      }
      oom = sim::mem::failures();
    } catch (const std::bad_alloc&) {
      threw = true;
    }
    if (threw && !oom)
      r.fail("spurious", "%s reports lack of memory, but there was none", what);
    if (oom) {
      r.fault("out-of-memory");
      hurt++;
    }
    if (threw)
      r.probe(what);
    return !threw;
  }

  void run(const Plan& p)
  {
    fs::reset(&r);
    for (int i = 0; i < N; i++) {
      x[i].reset(new T(fresh<T>((uint64_t)(p.c(1) + i))));
      ref[i].born((uint64_t)(p.c(1) + i));
    }
    for (auto& s : p.steps) {
      const int i = (int)((uint64_t)s.at(0) % N), j = (int)((uint64_t)s.at(1) % N);
      const auto seed = (uint64_t)s.at(2);
      r.mixs(s.op);
      const std::string when = "after '" + s.op + "'";
      if (s.op == "new") {
        x[i].reset();
        x[i].reset(new T(fresh<T>(seed)));
        ref[i].born(seed);
      } else if (s.op == "feed") {
        if (ref[i].any) {
          Rng g(seed); // only that it can
          if constexpr (!is_group<T>)
            feed(*x[i], g);
          continue;
        }
        Deed d{ 0, seed, (int)(1 + (uint64_t)s.at(3) % 30) };
        act(*x[i], d);
        ref[i].deed(d);
      } else if (s.op == "reset") {
        if (ref[i].any && is_group<T>)
          continue;
        Deed d{ is_group<T> ? 2 : 1, 0, 0 };
        const auto got = act(*x[i], d);
        if (ref[i].any) {
          if constexpr (std::is_same_v<T, HistAccumulator>) {
            // the number of bins stays whatever it is
            ref[i].h = History{ x[i]->GetNbins(), {} };
            if (x[i]->GetNbins() > 6)
              continue;
            ref[i].any = false;
            ref[i].settle();
          } else if constexpr (!std::is_same_v<T, MoveStats>) // the name stays whatever it is
            ref[i].born(0);
          r.probe("reset-after");
        } else if (got != ref[i].deed(d))
          r.fail("differs", "object %d prints another row than an object with the same history that was never copied", i);
      } else if (s.op == "copy") {
        const auto live = sim::mem::live();
        std::unique_ptr<T> y;
        if (ref[j].any)
          continue;
        copies++;
        const bool ok = starved(s, "copy-failed", [&] { y.reset(new T(*x[j])); });
        if (!ok && sim::mem::live() != live)
          r.fail("leak", "a copy that failed left %lld blocks behind", (long long)(sim::mem::live() - live));
        if (ok) {
          if (s.at(3) & 1) { // into the old place, by moving
            x[i] = std::move(y);
          } else {
            auto old = std::move(x[i]);
            x[i] = std::move(y);
            old.reset();
          }
          auto h = ref[j];
          ref[i] = h;
        }
      } else if (s.op == "assign") {
        if (ref[j].any)
          continue;
        const T& from = *x[j];
        copies += i != j;
        const bool ok = starved(s, "assign-failed", [&] { *x[i] = from; });
        if (ok) {
          auto h = ref[j];
          ref[i] = h;
        } else
          ref[i].any = true;
      } else if (s.op == "move") {
        if (i == j || ref[j].any)
          continue;
        bool ok = true;
        if (s.at(3) & 1) {
          ok = starved(s, "move-failed", [&] { *x[i] = std::move(*x[j]); });
        } else {
          std::unique_ptr<T> y;
          ok = starved(s, "move-failed", [&] { y.reset(new T(std::move(*x[j]))); });
          if (ok)
            x[i] = std::move(y);
          else {
            ref[j].any = true;
            continue;
          }
        }
        if (ok)
          ref[i] = ref[j];
        else
          ref[i].any = true;
        ref[j].any = true;
        r.probe("moved");
      } else if (s.op == "swap") {
        if (starved(s, "swap-failed", [&] { std::swap(*x[i], *x[j]); }))
          std::swap(ref[i], ref[j]);
        else
          ref[i].any = ref[j].any = true;
      } else if (s.op == "through") {
        // by value through a function that goes on with it
        if (ref[j].any)
          continue;
        Deed d{ 0, seed, (int)(1 + (uint64_t)s.at(3) % 9) };
        auto f = [&](T y) {
          {
            sim::mem::Pause pause;
            act(y, d);
          }
          return y;
        };
        const T& from = *x[j];
        if (starved(s, "through-failed", [&] { *x[i] = f(from); })) {
          auto h = ref[j];
          ref[i] = h;
          ref[i].deed(d);
        } else
          ref[i].any = true;
        if (i == j && ref[i].any)
          continue;
      } else if (s.op == "push") {
        if (ref[j].any || bag.size() > 9)
          continue;
        const T& from = *x[j];
        if (starved(s, "push-failed", [&] {
              if (s.at(3) & 1)
                bag.insert(bag.begin() + (std::ptrdiff_t)(seed % (bag.size() + 1)), from);
              else
                bag.push_back(from);
            })) {
          if (s.at(3) & 1)
            bagref.insert(bagref.begin() + (std::ptrdiff_t)(seed % (bagref.size() + 1)), ref[j]);
          else
            bagref.push_back(ref[j]);
        } else if ((s.at(3) & 1) && bag.size() == bagref.size()) {
          // an insertion in the middle only promises that they can be used
          for (auto& b : bagref)
            b.any = true;
        } else if (s.at(3) & 1) {
          bag.clear();
          bagref.clear();
        }
      } else if (s.op == "take" || s.op == "bagfeed" || s.op == "drop" || s.op == "turn" || s.op == "again") {
        if (bag.empty())
          continue;
        const auto k = (size_t)(seed % bag.size());
        const auto at = (std::ptrdiff_t)k;
        if (s.op == "drop") {
          bag.erase(bag.begin() + at);
          bagref.erase(bagref.begin() + at);
        } else if (s.op == "turn") {
          if (s.at(3) & 1) {
            std::rotate(bag.begin(), bag.begin() + at, bag.end());
            std::rotate(bagref.begin(), bagref.begin() + at, bagref.end());
          } else {
            std::reverse(bag.begin(), bag.end());
            std::reverse(bagref.begin(), bagref.end());
          }
        } else if (s.op == "again") {
          // the whole container is copied, the original ends
          std::vector<T> other;
          if (starved(s, "again-failed", [&] { other = bag; }))
            bag = std::move(other);
        } else if (!bagref[k].any) {
          if (s.op == "take") {
            const T& from = bag[k];
            if (starved(s, "assign-failed", [&] { *x[i] = from; }))
              ref[i] = bagref[k];
            else
              ref[i].any = true;
          } else {
            Deed d{ 0, seed, (int)(1 + (uint64_t)s.at(3) % 30) };
            act(bag[k], d);
            bagref[k].deed(d);
          }
        }
      }
      verify(when.c_str());
      uint64_t h = (uint64_t)p.c(0) % 9;
      for (int k = 0; k < N; k++)
        h = sim::hmix(h, ref[k].any);
      r.state(sim::hmix(sim::hmix(h, std::min<uint64_t>(hurt, 9)), sim::hmix(sim::hstr(s.op), bag.size())));
    }
    // whatever happened, everything can be given a value again
    for (int i = 0; i < N; i++)
      if (ref[i].any) {
        std::unique_ptr<T> y(new T(fresh<T>((uint64_t)i)));
        *x[i] = *y;
        ref[i].born((uint64_t)i);
        r.probe("assigned-after");
      }
    for (int i = 0; i < N; i++) {
      Deed d{ 0, (uint64_t)p.c(1) + (uint64_t)i, 12 };
      act(*x[i], d);
      ref[i].deed(d);
    }
    verify("at the end");
    if (hurt || copies > 2)
      r.nontrivial();
  }
};

template<class T>
void
go(const Plan& p, Run& r)
{
  // twice: the second time nothing is done for the first time
  int64_t kept[2];
  for (int pass = 0; pass < 2; pass++) {
    const auto live = sim::mem::live();
    Sim<T>{ r }.run(p);
    fs::reset(&r);
    kept[pass] = sim::mem::live() - live;
  }
  if (kept[1] > 0)
    r.fail("leak", "%lld blocks are left after the end of all objects", (long long)kept[1]);
}

void
exec(const Plan& p, Run& r)
{
  warm_up();
  switch ((uint64_t)p.c(0) % 9) {
    case 0:
      return go<acc::KahanAccumulator>(p, r);
    case 1:
      return go<acc::NeumaierAccumulator>(p, r);
    case 2:
      return go<acc::KnuthWelfordAccumulator>(p, r);
    case 3:
      return go<acc::WestAccumulator>(p, r);
    case 4:
      return go<NaiveInteger>(p, r);
    case 5:
      return go<MoveStats>(p, r);
    case 6:
      return go<bwsl::ObservableGroup<std::string>>(p, r);
    case 7:
      return go<bwsl::ObservableGroup<int>>(p, r);
    default:
      return go<HistAccumulator>(p, r);
  }
}

Plan
gen(Rng& g, bool thorough)
{
  Plan p;
  static const int64_t types[] = { 0, 1, 2, 3, 4, 5, 5, 5, 6, 6, 6, 7, 7, 8, 8, 8, 8 };
  p.cfg = { types[g.below(17)], g.range(0, 1000) };
  for (int n = (int)g.range(3, thorough ? 40 : 20); n > 0; n--) {
    int64_t i = g.range(0, 3), j = g.range(0, 3), seed = (int64_t)(g.next() >> 1), bit = g.range(0, 29);
    if (g.chance(0.5))
      seed = g.range(0, 20);
    int64_t nth = g.chance(0.5) ? 0 : g.chance(0.7) ? g.range(1, 6) : g.range(1, 40), sticky = g.range(0, 1);
    static const char* const ops[] = { "feed", "feed", "feed", "feed", "copy", "copy", "assign", "assign", "assign", "move", "move", "swap", "through", "push", "push", "take", "bagfeed", "drop", "turn", "again", "reset", "new" };
    p.add(ops[g.below(22)], { i, j, seed, bit, nth, sticky });
  }
  return p;
}
}

const sim::CheckDef&
sim::check()
{
  static CheckDef d;
  d.property = "C18";
  d.rule = "Each run keeps four objects of one type (five accumulators, histogram, move statistics, observable groups with string or integer keys) and a growing container of such objects. They are fed, reset, printed, copied, assigned (also to themselves), moved, swapped, passed and returned by value, stored, inserted, erased and rearranged, while allocations of the copying fail. After every step each object is compared with a fresh one that goes through the same history and was never copied, moved or assigned: all answers and the contents of a checkpoint. Non-trivial: an allocation failed or there were more than two copies.";
  d.state_measure = "(type, objects with unspecified contents, failed allocations, operation, size of the container)";
  d.real = { "bwsl accumulators, HistAccumulator, MoveStats, ObservableGroup", "boost text archives", "std::vector" };
  d.stub = { "operator new (failure injection)", "disk" };
  d.assumptions = { "an object that was moved from, or assigned to without success, may hold anything until it is reset or assigned to" };
  d.must_fire = { "out-of-memory", "copy-failed", "assign-failed", "push-failed", "through-failed", "again-failed", "moved", "assigned-after", "reset-after" };
  d.quick_runs = 10000;
  d.thorough_runs = 200000;
  d.generate = gen;
  d.execute = exec;
  return d;
}
