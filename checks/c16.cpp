// C16: a checkpoint that is damaged, cut or cannot be read or written does not
// hurt: what it was to be restored into can be used again.
#include "common.hpp"
#include <bwsl/Accumulators.hpp>
#include <bwsl/HistAccumulator.hpp>
#include <bwsl/ObservableGroup.hpp>
#include <bwsl/RNGUtils.hpp>
#include <bwsl/accumulators/NaiveIntegerAccumulator.hpp>
#include <bwsl/mcutils/MoveStats.hpp>
#include <memory>

using namespace chk;
namespace acc = bwsl::accumulators;
namespace fs = sim::fs;
using bwsl::HistAccumulator;
using bwsl::NaiveInteger;
using bwsl::montecarlo::MoveStats;

namespace {

using Answers = std::vector<uint64_t>;
void
put(Answers& o, double x)
{
  o.push_back(std::isnan(x) ? 0x7ff8dead : (uint64_t)dbits(x));
}

const char* const kOut = "/simfs/group.csv";

template<class K>
K
key(int i)
{
  if constexpr (std::is_same_v<K, std::string>) {
    static const char* names[] = { "energy", "a rather long name of an observable, for no small buffer", "winding 1", "" };
    return names[i % 4];
  } else
    return (K)(i % 4 * 1000003 - 1000);
}

// ------------------------------------------------ what each type answers
template<class A>
auto
answer(const A& a, bool) -> decltype(a.Sum(), Answers())
{
  Answers o;
  o.push_back(a.Count());
  if constexpr (std::is_same_v<A, NaiveInteger>)
    o.push_back((uint64_t)a.Sum());
  else
    put(o, a.Sum());
  put(o, a.Mean());
  if constexpr (std::is_same_v<A, NaiveInteger> || std::is_same_v<A, acc::KnuthWelfordAccumulator>) {
    put(o, a.Variance(true));
    put(o, a.ScaledVariance());
  }
  if constexpr (std::is_same_v<A, acc::WestAccumulator>) {
    put(o, a.PopulationVariance());
    put(o, a.SampleFrequencyVariance());
    put(o, a.SampleReliabilityVariance());
  }
  return o;
}
Answers
answer(const HistAccumulator& h, bool any)
{
  Answers o;
  size_t n = h.GetNbins();
  o.push_back(n);
  o.push_back(h.GetCount());
  auto all = h.GetResults();
  o.push_back(all.size());
  if (any && n > 5000)
    n = 5000;
  for (size_t i = 0; i < n; i++) {
    put(o, h.GetResult(i));
    put(o, all[i]);
    o.push_back(h.GetCount(i));
  }
  return o;
}
Answers
answer(const MoveStats& m, bool)
{
  Answers o;
  put(o, m.GetAcceptedRatio());
  put(o, m.GetRejectedRatio());
  put(o, m.GetImpossibleRatio());
  put(o, m.GetAverageProbability());
  auto c = m;
  bool pending = false;
  try {
    c.Propose();
  } catch (const bwsl::montecarlo::exception::MoveInvalidSequence&) {
    pending = true;
  }
  o.push_back(pending);
  return o;
}
template<class K>
Answers
answer(const bwsl::ObservableGroup<K>& g, bool any)
{
  // it has no queries but its output
  auto c = g;
  auto files = fs::list();
  if (any) {
    // its file may have any name now: only its measurements are touched
    for (int k = 0; k < 4; k++)
      try {
        c.Measure(key<K>(k), 1.0);
      } catch (const std::out_of_range&) {
      }
    return {};
  }
  fs::erase(kOut);
  c.PrintHeaders();
  c.PrintAndReset(17);
  auto t = fs::get(kOut);
  fs::erase(kOut);
  return { sim::hstr(t), t.size() };
}
template<class G>
auto
answer(const G& g, bool) -> decltype(G::default_seed, Answers())
{
  auto c = g;
  Answers o;
  for (int k = 0; k < 700; k++)
    o.push_back((uint64_t)c());
  return o;
}

// --------------------------------------------------- how each type goes on
template<class A>
auto
feed(A& a, Rng& g) -> decltype(a.Sum(), void())
{
  double x = value(g, (int)g.below(8)), w = g.unit();
  if constexpr (std::is_same_v<A, NaiveInteger>)
    a.Add((long)g.range(-9999, 9999));
  else {
    // now and then values that cancel, and leave only what was lost on the way
    const double big = g.below(10) ? 0.0 : std::ldexp(1.0, (int)g.range(50, 300));
    for (double y : { big, x, -big }) {
      if (big == 0.0 && y != x)
        continue;
      if constexpr (std::is_same_v<A, acc::WestAccumulator>)
        a.Add(y, w);
      else
        a.Add(y);
    }
  }
}
void
feed(HistAccumulator& h, Rng& g)
{
  double x = value(g, (int)g.below(8));
  auto k = g.below(12);
  const double big = g.below(10) ? 0.0 : std::ldexp(1.0, (int)g.range(50, 300));
  h.ForceAdd(k, big);
  h.ForceAdd(k, x);
  h.ForceAdd(k, -big);
}
void
feed(MoveStats& m, Rng& g)
{
  double p = g.unit();
  auto k = g.below(5);
  try {
    if (k == 0)
      m.Propose();
    else if (k == 1)
      m.Add(bwsl::montecarlo::MoveResult::Accept(p));
    else if (k == 2)
      m.Impossible();
    else
      m.Reject(p);
  } catch (const bwsl::montecarlo::exception::MoveInvalidSequence&) {
  }
}
template<class K>
void
feed(bwsl::ObservableGroup<K>& o, Rng& g)
{
  double x = value(g, (int)g.below(8));
  auto k = key<K>((int)g.below(4));
  if (g.below(9) == 0)
    o.AddObservable(k);
  try {
    o.Measure(k, x);
  } catch (const std::out_of_range&) {
  }
}
template<class G>
auto
feed(G& g, Rng& r) -> decltype(G::default_seed, void())
{
  g.discard(r.below(200));
}

// ------------------------------------------------------- fresh objects
template<class T>
T
fresh(uint64_t seed)
{
  if constexpr (std::is_same_v<T, HistAccumulator>)
    return T(seed % 5);
  else if constexpr (std::is_same_v<T, MoveStats>)
    return T("worm");
  else if constexpr (std::is_same_v<T, bwsl::ObservableGroup<int>>)
    return T(kOut, { key<int>(0), key<int>((int)(seed % 4)) });
  else if constexpr (std::is_same_v<T, bwsl::ObservableGroup<std::string>>)
    return T(kOut, { key<std::string>(0), key<std::string>((int)(seed % 4)) });
  else if constexpr (std::is_same_v<T, std::mt19937> || std::is_same_v<T, std::mt19937_64>)
    return T((typename T::result_type)seed);
  else
    return T();
}
/// Back to the beginning; false: the type has no such operation
template<class T>
bool
reset(T& x)
{
  if constexpr (std::is_same_v<T, bwsl::ObservableGroup<int>> || std::is_same_v<T, bwsl::ObservableGroup<std::string>>)
    return false;
  else if constexpr (std::is_same_v<T, std::mt19937> || std::is_same_v<T, std::mt19937_64>)
    return false;
  else {
    x.Reset();
    return true;
  }
}

/// Sinks and sources with a fault
struct Source : PieceBuf
{
  using PieceBuf::PieceBuf;
};

template<class T>
void
write(std::ostream& os, const T& x, int fmt, uint64_t guard)
{
  if (fmt & 1) {
    boost::archive::binary_oarchive ar(os);
    ar << guard << x << guard;
  } else {
    boost::archive::text_oarchive ar(os);
    ar << guard << x << guard;
  }
}
/// what follows the object in the archive
template<class T>
uint64_t
read(std::istream& is, T& x, int fmt)
{
  uint64_t before = 0, after = 0;
  if (fmt & 1) {
    boost::archive::binary_iarchive ar(is);
    ar >> before >> x >> after;
  } else {
    boost::archive::text_iarchive ar(is);
    ar >> before >> x >> after;
  }
  return before == after ? after : ~before;
}

template<class T>
struct Sim
{
  Run& r;
  static constexpr int N = 3;
  std::unique_ptr<T> x[N];
  std::unique_ptr<T> ref[N]; // fed the same, never near any damage
  bool any[N] = {};          // a restore failed: nothing is known but that it can be used
  struct Saved
  {
    std::string data;
    std::unique_ptr<T> ref;
    int fmt = 0;
    uint64_t guard = 0;
  } saved;
  uint64_t hurt = 0;

  void verify(int i, const char* when)
  {
    auto a = answer(*x[i], any[i]);
    if (any[i])
      return; // it answers
    auto b = answer(*ref[i], false);
    for (auto v : a)
      r.mix(v);
    if (a.size() != b.size())
      r.fail("differs", "object %d %s: %zu answers instead of %zu", i, when, a.size(), b.size());
    for (size_t k = 0; k < a.size(); k++)
      if (a[k] != b[k])
        r.fail("differs", "object %d %s: answer %zu is %016llx, that of an object that met no damage %016llx", i, when, k, (unsigned long long)a[k], (unsigned long long)b[k]);
  }
  /// and goes on the same way
  void verify_future(int i, uint64_t seed, const char* when)
  {
    verify(i, when);
    if (any[i])
      return;
    auto a = std::make_unique<T>(*x[i]), b = std::make_unique<T>(*ref[i]);
    Rng ga(seed), gb(seed);
    for (int k = 0; k < 12; k++) {
      feed(*a, ga);
      feed(*b, gb);
    }
    if (answer(*a, false) != answer(*b, false))
      r.fail("differs", "object %d %s: it goes on differently from one that met no damage", i, when);
  }

  void restore_intact(int i, uint64_t seed, const char* when)
  {
    PieceBuf buf(saved.data, seed, (int)(1 + seed % 300));
    std::istream is(&buf);
    uint64_t g = 0;
    try {
      g = read(is, *x[i], saved.fmt);
    } catch (const std::exception& e) {
      r.fail("refused", "object %d %s: an intact checkpoint is refused: %s", i, when, e.what());
    }
    if (g != saved.guard)
      r.fail("misaligned", "object %d %s: what follows the object in the archive reads as %llu instead of %llu", i, when, (unsigned long long)g, (unsigned long long)saved.guard);
    ref[i] = std::make_unique<T>(*saved.ref);
    any[i] = false;
    verify_future(i, seed, when);
    r.probe("restored-intact");
  }

  void run(const Plan& p)
  {
    fs::reset(&r);
    for (int i = 0; i < N; i++) {
      x[i] = std::make_unique<T>(fresh<T>((uint64_t)p.c(1) + (uint64_t)i));
      ref[i] = std::make_unique<T>(*x[i]);
    }
    {
      saved.ref = std::make_unique<T>(*ref[0]);
      saved.guard = 77;
      std::ostringstream os;
      write(os, *x[0], 1, 1);
      read(*std::make_unique<std::istringstream>(os.str()), *std::make_unique<T>(*x[0]), 1);
      std::ostringstream os2;
      write(os2, *x[0], 0, saved.guard);
      saved.data = os2.str();
      read(*std::make_unique<std::istringstream>(saved.data), *std::make_unique<T>(*x[0]), 0);
    }
    for (auto& s : p.steps) {
      int i = (int)((uint64_t)s.at(0) % N), j = (int)((uint64_t)s.at(1) % N);
      const int fmt = (int)(s.at(2) & 1);
      r.mixs(s.op);
      if (s.op == "feed") {
        Rng ga((uint64_t)s.at(3)), gb((uint64_t)s.at(3));
        if (!any[i])
          for (int64_t k = 0; k < std::min<int64_t>(60, s.at(1)); k++) {
            feed(*x[i], ga);
            feed(*ref[i], gb);
          }
      } else if (s.op == "save") {
        // a checkpoint, perhaps into a place that takes only so much; the object
        // stays what it is
        if (any[i])
          continue;
        const uint64_t guard = (uint64_t)s.at(3) & 0xffffff;
        LimitBuf sink(s.at(4), s.at(5) & 1);
        std::ostream os(&sink);
        bool threw = false;
        uint64_t oom = 0;
        try {
          sim::mem::Scope scope(s.at(6), s.at(7) & 1);
          try {
            write(os, *x[i], fmt, guard);
          } catch (...) {
            oom = sim::mem::failures();
            throw;
          }
          oom = sim::mem::failures();
        } catch (const std::exception&) {
          threw = true;
        }
        verify_future(i, (uint64_t)s.at(3), threw ? "after a checkpoint that failed" : "after a checkpoint");
        if (sink.failed) {
          r.fault("save-into-full-place");
          hurt++;
          if (!threw && os.good())
            r.fail("unnoticed", "a checkpoint did not fit, but neither an exception nor the stream says so");
        }
        if (oom) {
          r.fault("save-out-of-memory");
          hurt++;
        }
        if (threw && !sink.failed && !oom)
          r.fail("spurious", "a checkpoint failed although nothing went wrong");
        if (!threw && os.good() && !sink.failed) {
          saved.data = sink.data;
          saved.ref = std::make_unique<T>(*ref[i]);
          saved.fmt = fmt;
          saved.guard = guard;
          if (oom) // somebody swallowed the failure
            restore_intact(i, (uint64_t)s.at(3), "restored from a checkpoint that was made with little memory");
        }
      } else if (s.op == "damage") {
        // args: object, how often, -, seed, kind
        Rng g((uint64_t)s.at(3));
        auto bytes = saved.data;
        int64_t stop = -1, nth = 0;
        bool error = false, sticky = false, harmless = false;
        switch ((uint64_t)s.at(4) % 8) {
          case 0: // ends early
          case 1:
            stop = g.chance(0.5) ? (int64_t)g.below(bytes.size()) : (int64_t)(bytes.size() - g.range(1, (int64_t)std::min<size_t>(bytes.size(), 40)));
            r.fault("checkpoint-cut");
            break;
          case 2: // read error
            stop = (int64_t)g.below(bytes.size());
            error = true;
            r.fault("checkpoint-read-error");
            break;
          case 3: // bytes damaged
            for (int k = (int)g.range(1, 4); k > 0; k--)
              bytes[g.below(bytes.size())] ^= (char)(1 << g.below(8));
            r.fault("checkpoint-bits");
            break;
          case 4: { // a piece of something else
            auto at = g.below(bytes.size()), n = (uint64_t)g.range(1, 64);
            for (auto k = at; k < std::min<uint64_t>(bytes.size(), at + n); k++)
              bytes[k] = saved.fmt ? (char)g.below(256) : "0123456789 e+-.naif"[g.below(19)];
            r.fault("checkpoint-overwritten");
            break;
          }
          case 5: { // a piece is missing
            auto at = g.below(bytes.size());
            bytes.erase(at, (size_t)g.range(1, 64));
            r.fault("checkpoint-piece-missing");
            break;
          }
          case 6: // no memory
            nth = g.range(1, g.chance(0.5) ? 8 : 60);
            sticky = g.chance(0.5);
            harmless = true;
            break;
          default: // only zeros after some byte, as after a power failure
            for (auto k = g.below(bytes.size()); k < bytes.size(); k++)
              bytes[k] = 0;
            r.fault("checkpoint-zeroed");
        }
        const auto live = sim::mem::live();
        auto target = std::make_unique<T>(*x[i]);
        bool threw = false;
        uint64_t oom = 0, guard = 0;
        {
          PieceBuf buf(bytes, (uint64_t)s.at(3), (int)(1 + g.below(500)), stop, error);
          std::istream is(&buf);
          try {
            sim::mem::Scope scope(nth, sticky);
            try {
              guard = read(is, *target, saved.fmt);
            } catch (...) {
              oom = sim::mem::failures();
              throw;
            }
            oom = sim::mem::failures();
          } catch (const std::exception&) {
            threw = true;
          }
        }
        if (oom)
          r.fault("restore-out-of-memory");
        r.mix(threw);
        hurt++;
        if (threw)
          r.probe("restore-refused");
        if (harmless && !threw) {
          auto was = std::move(x[i]);
          x[i] = std::move(target);
          auto old = std::move(ref[i]);
          ref[i] = std::make_unique<T>(*saved.ref);
          auto a = any[i];
          any[i] = false;
          if (guard != saved.guard)
            r.fail("misaligned", "a restore from an intact checkpoint read something else after the object");
          verify(i, "restored with little memory");
          target = std::move(x[i]);
          x[i] = std::move(was);
          ref[i] = std::move(old);
          any[i] = a;
        }
        (void)answer(*target, true);
        switch ((uint64_t)s.at(5) % 4) {
          case 0: // thrown away
            target.reset();
            if (sim::mem::live() != live)
              r.fail("leak", "%lld blocks are left after a restore that %s and the end of the object", (long long)(sim::mem::live() - live), threw ? "failed" : "returned");
            break;
          case 1: // kept as it is
            x[i] = std::move(target);
            any[i] = true;
            break;
          case 2: // assigned to
            if (any[j])
              break;
            *target = *x[j];
            {
              auto keep = std::make_unique<T>(*ref[j]);
              x[i] = std::move(target);
              ref[i] = std::move(keep);
            }
            any[i] = false;
            verify_future(i, (uint64_t)s.at(3), "assigned to after a restore that went wrong");
            r.probe("assigned-after");
            break;
          default: // copied, the original ends
            x[i] = std::make_unique<T>(*target);
            target.reset();
            any[i] = true;
        }
      } else if (s.op == "restore") {
        restore_intact(i, (uint64_t)s.at(3), any[i] ? "restored after a restore that went wrong" : "restored");
      } else if (s.op == "reset") {
        if constexpr (std::is_same_v<T, HistAccumulator>) {
          if (any[i] && x[i]->GetNbins() > 100000)
            continue;
          x[i]->Reset();
          ref[i] = std::make_unique<T>(x[i]->GetNbins());
        } else {
          if (!reset(*x[i]))
            continue;
          ref[i] = std::make_unique<T>(fresh<T>(0));
        }
        if (any[i])
          r.probe("reset-after");
        any[i] = false;
        verify_future(i, (uint64_t)s.at(3), "reset");
      } else if (s.op == "assign") {
        if (any[j] || i == j)
          continue;
        *x[i] = *x[j];
        ref[i] = std::make_unique<T>(*ref[j]);
        any[i] = false;
        verify_future(i, (uint64_t)s.at(3), "assigned");
      }
      for (int k = 0; k < N; k++)
        verify(k, ("after '" + s.op + "'").c_str());
      uint64_t h = (uint64_t)p.c(0) % 10;
      for (int k = 0; k < N; k++)
        h = sim::hmix(h, any[k]);
      r.state(sim::hmix(sim::hmix(h, std::min<uint64_t>(hurt, 20)), sim::hmix((uint64_t)saved.fmt, saved.data.size())));
    }
    for (int k = 0; k < N; k++)
      restore_intact(k, (uint64_t)p.c(1), "restored at the end");
    if (hurt)
      r.nontrivial();
  }
};

void
exec(const Plan& p, Run& r)
{
  warm_up();
  switch ((uint64_t)p.c(0) % 10) {
    case 0:
      return Sim<acc::KahanAccumulator>{ r }.run(p);
    case 1:
      return Sim<acc::NeumaierAccumulator>{ r }.run(p);
    case 2:
      return Sim<acc::KnuthWelfordAccumulator>{ r }.run(p);
    case 3:
      return Sim<acc::WestAccumulator>{ r }.run(p);
    case 4:
      return Sim<NaiveInteger>{ r }.run(p);
    case 5:
      return Sim<MoveStats>{ r }.run(p);
    case 6:
      return Sim<bwsl::ObservableGroup<std::string>>{ r }.run(p);
    case 7:
      return Sim<bwsl::ObservableGroup<int>>{ r }.run(p);
    case 8:
      return (uint64_t)p.c(1) % 2 ? Sim<std::mt19937>{ r }.run(p) : Sim<std::mt19937_64>{ r }.run(p);
    default:
      return Sim<HistAccumulator>{ r }.run(p);
  }
}

Plan
gen(Rng& g, bool thorough)
{
  Plan p;
  static const int64_t types[] = { 0, 1, 2, 3, 4, 5, 5, 6, 6, 7, 8, 9, 9, 9 };
  p.cfg = { types[g.below(14)], (int64_t)(g.next() >> 1) };
  for (int n = (int)g.range(3, thorough ? 40 : 22); n > 0; n--) {
    int64_t i = g.range(0, 2), j = g.range(0, 2), f = g.range(0, 1), seed = (int64_t)(g.next() >> 1);
    switch (g.below(12)) {
      case 0:
      case 1:
      case 2:
        p.add("feed", { i, g.chance(0.5) ? g.range(0, 3) : g.range(1, 60), 0, seed });
        break;
      case 3:
      case 4: {
        int64_t room = g.chance(0.7) ? -1 : g.range(0, 400), nth = room < 0 && g.chance(0.3) ? g.range(1, 20) : 0;
        p.add("save", { i, 0, f, seed, room, g.range(0, 1), nth, g.range(0, 1) });
        break;
      }
      case 5:
      case 6:
      case 7:
      case 8:
        p.add("damage", { i, j, 0, seed, g.range(0, 7), g.range(0, 3) });
        break;
      case 9:
        p.add("restore", { i, 0, 0, seed });
        break;
      case 10:
        p.add("reset", { i, 0, 0, seed });
        break;
      default:
        p.add("assign", { i, j, 0, seed });
    }
  }
  return p;
}
}

const sim::CheckDef&
sim::check()
{
  static CheckDef d;
  d.property = "C16";
  d.rule = "Each run keeps three objects of one archived type (five accumulators, histogram, move statistics, observable groups with string or integer keys, two generators) and twins of them that never meet damage. Checkpoints are written to places that fill up or with failing allocations, then cut, given flipped bits, overwritten, shortened in the middle, zeroed from a byte on, read with errors or without memory; what they were restored into is thrown away, queried, copied, assigned to, reset or restored again. Every object whose contents are specified is compared with its twin after every step, including its further evolution. Non-trivial: at least one damaged restore or failed save.";
  d.state_measure = "(type, objects with unspecified contents, damages so far, form and size of the newest checkpoint)";
  d.real = { "bwsl accumulators, HistAccumulator, MoveStats, ObservableGroup, RNGUtils", "boost archives and serialization of vector/map/string" };
  d.stub = { "archive storage (memory, with faults)", "operator new (failure injection)", "disk" };
  d.assumptions = { "damage boost does not detect leaves unspecified contents", "the name of a move is not part of its checkpoint", "a failed restore may change its target" };
  d.must_fire = { "checkpoint-cut", "checkpoint-read-error", "checkpoint-bits", "checkpoint-overwritten", "checkpoint-piece-missing", "checkpoint-zeroed", "restore-out-of-memory", "save-out-of-memory", "save-into-full-place", "restore-refused", "restored-intact", "reset-after", "assigned-after" };
  d.quick_runs = 16000;
  d.thorough_runs = 300000;
  d.generate = gen;
  d.execute = exec;
  return d;
}
