// C17: operations on files leave nothing behind, whatever happens to them.
#include "faults.hpp"
#include "lattice_model.hpp"
#include <boost/serialization/map.hpp>
#include <boost/serialization/string.hpp>
#include <bwsl/FileUtils.hpp>
#include <bwsl/ObservableGroup.hpp>

using namespace chk;
namespace fs = sim::fs;
using bwsl::Lattice;

namespace {

constexpr int kNames = 20;

/// Names of files; those from kGood on can not be written
constexpr int kGood = 17;
const std::string&
name(int64_t k)
{
  static const std::string names[kNames] = { "/simfs/out.csv",
                                             "/simfs/out.csv.tmp",
                                             "/simfs/out.csv~",
                                             "/simfs/out.csv.bak",
                                             "/simfs/.out.csv",
                                             "/simfs/out",
                                             "/simfs/out.tmp",
                                             "/simfs/OUT.CSV",
                                             "/simfs/with space.csv",
                                             "/simfs/100%s%n.csv",
                                             "/simfs/{}{:d}.csv",
                                             "/simfs/\xc3\xbcn\xc3\xaf.csv",
                                             "/simfs/dir/out.csv",
                                             "/simfs/dir/a\nb,c;d.csv",
                                             "/simfs/" + std::string(180, 'n') + ".csv",
                                             "/simfs/out.csv.new",
                                             "/simfs/-",
                                             "/simfs/none/out.csv",
                                             "/simfs/dir",
                                             "/simfs/none/" + std::string(100, 'x') };
  return names[(uint64_t)k % kNames];
}

Lattice
make(const Step& s)
{
  BravaisModel m;
  m.type = (int)((uint64_t)s.at(1) % kBravaisTypes);
  auto& br = m.get();
  std::vector<size_t> size;
  for (size_t k = 0; k < br.GetDim(); k++)
    size.push_back(1 + (size_t)((uint64_t)s.at(2 + k % 3) % (br.GetDim() == 1 ? 40 : br.GetDim() == 2 ? 6 : 3)));
  return Lattice(br, size, (s.at(5) & 1) ? Lattice::boundaries_t::Open : Lattice::boundaries_t::Closed);
}

using Contents = std::map<std::string, std::string>;
Contents
disk()
{
  Contents c;
  for (auto& f : fs::list())
    c[f] = fs::get(f);
  return c;
}

struct World
{
  Run& r;
  Lattice lat[2];
  bwsl::ObservableGroup<int> gi{ name(0), { 3, 1, 2 } };
  bwsl::ObservableGroup<std::string> gs{ name(1), { "energy", "magnetisation squared", "e" } };
  int64_t file[2] = { 0, 1 };

  /// @p target: the file that may be written ("": none)
  template<class F>
  bool operate(const Step& s, size_t at, const std::string& target, const char* what, F&& op)
  {
    auto before = disk();
    bool threw = false, crashed = false;
    {
      auto o = under_faults(r, s, at, target, op);
      threw = o.threw;
      crashed = fs::fired().crash > 0;
      if (threw && !o.harmed && &s == &calm())
        r.fail("gone", "%s fails (%s) although all faults have stopped", what, o.what.c_str());
      if (threw)
        r.probe("failure-reported");
      if (o.harmed) {
        r.nontrivial();
        r.probe(threw ? "harmed-and-reported" : "harmed-and-done");
      }
    }
    if (fs::open_files())
      r.fail("open-file", "%s %s and left %zu open files behind", what, threw ? "failed" : "returned", fs::open_files());
    auto elsewhere = fs::outside();
    if (!elsewhere.empty())
      r.fail("other-file", "%s of '%s' wanted to write '%s'", what, target.c_str(), elsewhere.c_str());
    auto after = disk();
    for (auto& f : before) {
      if (f.first == target)
        continue;
      auto it = after.find(f.first);
      if (it == after.end())
        r.fail("removed-file", "%s of '%s' removed the file '%s'", what, target.c_str(), f.first.c_str());
      if (it->second != f.second)
        r.fail("changed-file", "%s of '%s' changed the file '%s'", what, target.c_str(), f.first.c_str());
    }
    for (auto& f : after)
      if (f.first != target && !before.count(f.first) && !crashed)
        r.fail("other-file", "%s of '%s' %s and left the file '%s' behind", what, target.c_str(), threw ? "failed" : "returned", f.first.c_str());
    if (!threw && !target.empty() && !after.count(target))
      r.fail("missing", "%s returned but there is no file '%s'", what, target.c_str());
    r.mix(threw);
    r.state(sim::hmix(sim::hmix(sim::hstr(what), sim::hstr(target)), threw * 64 + after.size()));
    return !threw;
  }

  /// no faults
  static const Step& calm()
  {
    static const Step s{ "calm", { 0, 0, -1 } };
    return s;
  }

  void table(const Step& s, size_t at, int64_t l, int64_t t, int64_t n)
  {
    static const char* const names[] = { "SavePositions", "SaveDistances", "SaveMomenta", "SavePairs" };
    auto& lt = lat[(uint64_t)l % 2];
    int k = (int)((uint64_t)t % 4);
    operate(s, at, name(n), names[k], [&] {
      k == 0 ? lt.SavePositions(name(n)) : k == 1 ? lt.SaveDistances(name(n)) : k == 2 ? lt.SaveMomenta(name(n)) : lt.SavePairs(name(n));
    });
  }
  void group(const Step& s, size_t at, int64_t g, bool headers)
  {
    g = (int64_t)((uint64_t)g % 2);
    operate(s, at, name(file[g]), headers ? "PrintHeaders" : "PrintAndReset", [&] {
      if (headers)
        g ? gs.PrintHeaders() : gi.PrintHeaders();
      else
        g ? gs.PrintAndReset() : gi.PrintAndReset();
    });
  }
  void compare(const Step& s, size_t at, int64_t a, int64_t b)
  {
    bool answer = false;
    const bool both = fs::exists(name(a)) && fs::exists(name(b));
    const bool equal = both && fs::get(name(a)) == fs::get(name(b));
    bool ok = operate(s, at, "", "comparing files", [&] { answer = bwsl::compare_files(name(a), name(b)); });
    if (ok && &s == &calm() && answer != equal)
      r.fail("gone", "comparing '%s' and '%s' answers %d although all faults have stopped", name(a).c_str(), name(b).c_str(), answer);
    r.mix(answer);
  }

  void run(const Plan& p)
  {
    for (auto& s : p.steps) {
      r.mixs(s.op);
      if (s.op == "lattice") {
        lat[(uint64_t)s.at(0) % 2] = make(s);
      } else if (s.op == "put") {
        Rng g((uint64_t)s.at(1));
        std::string junk;
        for (int64_t n = (int64_t)((uint64_t)s.at(2) % 20000); n > 0; n--)
          junk += (char)g.range(32, 126);
        if ((uint64_t)s.at(0) % kNames < kGood)
          fs::put(name(s.at(0)), junk);
      } else if (s.op == "copy") {
        if (fs::exists(name(s.at(0))) && (uint64_t)s.at(1) % kNames < kGood)
          fs::put(name(s.at(1)), fs::get(name(s.at(0))));
      } else if (s.op == "erase") {
        if ((uint64_t)s.at(0) % kNames < kGood)
          fs::erase(name(s.at(0)));
      } else if (s.op == "group") {
        int g = (int)((uint64_t)s.at(0) % 2);
        file[g] = s.at(1);
        if (g)
          gs = bwsl::ObservableGroup<std::string>(name(file[g]), { "energy", "e", std::string(50, 'o') });
        else
          gi = bwsl::ObservableGroup<int>(name(file[g]), { 5, 7 });
      } else if (s.op == "measure") {
        Rng g((uint64_t)s.at(0));
        gs.Measure("e", value(g, 0));
        gi.AddObservable(7).Measure(7, value(g, 1));
      } else if (s.op == "save")
        table(s, 3, s.at(0), s.at(1), s.at(2));
      else if (s.op == "headers" || s.op == "print")
        group(s, 1, s.at(0), s.op == "headers");
      else if (s.op == "compare")
        compare(s, 2, s.at(0), s.at(1));
    }
    // faults have stopped: everything works again
    for (int64_t k = p.c(0) % 3; k < kGood; k += 3)
      table(calm(), 0, k, p.c(0) + k, k);
    compare(calm(), 0, p.c(0) % kGood, p.c(0) % kGood);
    compare(calm(), 0, 0, (p.c(0) / 3) % kGood);
    for (int g = 0; g < 2; g++)
      if ((uint64_t)file[g] % kNames < kGood) {
        group(calm(), 0, g, true);
        group(calm(), 0, g, false);
      }
  }
};

void
exec(const Plan& p, Run& r)
{
  warm_up();
  // twice: what is kept after the first time must not become more
  int64_t live[2] = { 0, 0 };
  for (int pass = 0; pass < 2; pass++) {
    fs::reset(&r);
    const auto before = sim::mem::live();
    fs::mkdir("/simfs/dir");
    fs::confine(true);
    {
      World w{ r };
      w.lat[0] = make(Step{ "lattice", { 0, p.c(1), p.c(2), p.c(3), 2, p.c(4) } });
      w.lat[1] = make(Step{ "lattice", { 0, p.c(4), p.c(3), p.c(2), 2, p.c(1) } });
      w.run(p);
    }
    fs::confine(false);
    fs::reset(&r);
    live[pass] = sim::mem::live() - before;
  }
  if (live[1] > 0)
    r.fail("leak", "%lld blocks of memory were not released", (long long)live[1]);
}

Plan
gen(Rng& g, bool thorough)
{
  Plan p;
  p.cfg = { g.range(0, 1000), g.range(0, 40), g.range(0, 40), g.range(0, 40), g.range(0, 40) };
  auto any = [&] { return g.chance(0.5) ? g.range(0, 3) : g.range(0, kNames - 1); };
  for (int n = (int)g.range(2, thorough ? 30 : 14); n > 0; n--) {
    switch (g.below(12)) {
      case 0:
        p.add("lattice", { g.range(0, 1), g.range(0, kBravaisTypes - 1), g.range(0, 39), g.range(0, 39), g.range(0, 39), g.range(0, 1) });
        break;
      case 1:
      case 2:
        p.add("put", { any(), (int64_t)(g.next() >> 1), g.chance(0.5) ? g.range(0, 50) : g.range(0, 19999) });
        break;
      case 3:
        p.add("copy", { any(), any() });
        break;
      case 4:
        p.add(g.chance(0.5) ? "erase" : "measure", { any() });
        break;
      case 5:
        p.add("group", { g.range(0, 1), any() });
        break;
      case 6:
      case 7: {
        std::vector<int64_t> a = { g.range(0, 1) };
        write_faults(g, a, g.chance(0.5) ? 60 : 700);
        p.add(g.chance(0.6) ? "print" : "headers", a);
        break;
      }
      case 8:
      case 9: {
        std::vector<int64_t> a = { any(), any(), g.chance(0.2) ? g.range(1, 8) : 0, g.range(0, 1), -1 };
        for (int q = g.chance(0.3) ? 0 : (int)g.range(1, 2); q > 0; q--) {
          fs::Fault f;
          switch (g.below(5)) {
            case 0:
              f.op = fs::kOpen;
              f.what = fs::kOpenErr;
              f.nth = g.range(1, 2);
              f.arg = g.range(0, 7);
              break;
            case 1:
              f.op = g.chance(0.7) ? fs::kSeek : fs::kStat;
              f.what = fs::kEIO;
              f.nth = g.range(1, 8);
              break;
            default: {
              static const int w[] = { fs::kEIO, fs::kEIO, fs::kEINTR, fs::kShort };
              f.op = fs::kRead;
              f.what = w[g.below(4)];
              f.nth = g.range(1, 6);
              f.arg = g.range(1, 600);
              f.count = g.chance(0.6) ? 1 : g.range(1, 9);
            }
          }
          for (auto v : fs::encode(f))
            a.push_back(v);
        }
        p.add("compare", a);
        break;
      }
      default: {
        std::vector<int64_t> a = { g.range(0, 1), g.range(0, 3), any() };
        write_faults(g, a, g.chance(0.5) ? 300 : 9000);
        p.add("save", a);
      }
    }
  }
  return p;
}
}

const sim::CheckDef&
sim::check()
{
  static CheckDef d;
  d.property = "C17";
  d.rule = "Each run saves tables of two lattices, prints headers and rows of two observable groups and compares files, in a simulated file system of twenty names (neighbours that temporary or backup files would take, names with spaces, formatting directives, line ends, other alphabets, 184 letters; a folder and folders that do not exist), some of which hold something already, under failed opens, failing, short and interrupted calls, full disks, machine stops and failing allocations. After every operation no file may be open and every file but the one asked for must be as before. At the end, without faults, everything must work. The plan is executed twice in the process; the second time may not keep any memory. Non-trivial: at least one operation was harmed.";
  d.state_measure = "(operation, file, outcome, number of files)";
  d.real = { "bwsl/Lattice.hpp", "bwsl/ObservableGroup.hpp", "bwsl/FileUtils.hpp", "fmt", "libstdc++ file streams" };
  d.stub = { "system calls and disk (in memory, with faults)", "operator new (failure injection)" };
  d.assumptions = { "a file that is being written when the machine stops may leave another one behind", "what an operation keeps once for all is not a leak" };
  d.must_fire = { "open-error", "write-EINTR", "write-short", "write-EIO", "write-ENOSPC", "write-crash", "read-EIO", "disk-full", "out-of-memory", "failure-reported", "harmed-and-reported", "harmed-and-done" };
  d.quick_runs = 5000;
  d.thorough_runs = 120000;
  d.generate = gen;
  d.execute = exec;
  return d;
}
