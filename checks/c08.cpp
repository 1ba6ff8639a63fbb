// C08: a saved lattice table is complete and correct, or the failure is
// reported.
#include "faults.hpp"
#include "lattice_model.hpp"

using namespace chk;
namespace fs = sim::fs;
using bwsl::Lattice;

namespace {

const char* kFile[] = { "/simfs/t0.csv", "/simfs/t1.csv" };

Lattice
make(int64_t type, const std::vector<int64_t>& l, bool open)
{
  BravaisModel m;
  m.type = (int)((uint64_t)type % kBravaisTypes);
  auto& br = m.get();
  std::vector<size_t> size;
  for (size_t k = 0; k < br.GetDim(); k++)
    size.push_back((size_t)((uint64_t)l[k % 3] % 9));
  if (br.GetDim() == 1)
    size[0] = (size_t)((uint64_t)l[0] % 140);
  if (br.GetDim() == 1 && l[0] > 1000)
    size[0] = l[0] > 100000 ? 65530 + (size_t)l[0] % 50 : 250 + (size_t)l[0] % 20; // more than 8 or 16 bits count
  if (br.GetDim() > 2)
    for (auto& s : size)
      s = s % (br.GetDim() == 3 ? 5 : 3);
  for (auto& s : size)
    if (s == 0)
      s = 1;
  return Lattice(br, size, open ? Lattice::boundaries_t::Open : Lattice::boundaries_t::Closed);
}

std::string
columns(char c, size_t n)
{
  std::string s;
  for (size_t i = 0; i < n; i++)
    s += std::string(",") + c + std::to_string(i);
  return s;
}

void
append(std::vector<double>& v, const std::vector<double>& w)
{
  v.insert(v.end(), w.begin(), w.end());
}

/// "" if the text is the complete table
std::string
verify(const Lattice& l, int table, const std::string& text)
{
  const size_t n = l.GetNumSites(), d = l.GetDim();
  std::string header = table == 0 ? "i" + columns('x', d) : table == 1 ? "i" + columns('d', d) : table == 2 ? "i" + columns('k', d) : "i,a,b" + columns('x', d) + columns('y', d) + columns('d', d);
  size_t rows = table == 3 ? n * n : table == 2 && l.HasOpenBoundaries() ? 0 : n;
  size_t at = 0;
  auto line = [&](std::string& s) {
    auto e = text.find('\n', at);
    if (e == std::string::npos)
      return false;
    s = text.substr(at, e - at);
    at = e + 1;
    return true;
  };
  std::string s;
  if (!line(s) || s != header)
    return "the header reads '" + s.substr(0, 100) + "' instead of '" + header + "'";
  for (size_t i = 0; i < rows; i++) {
    if (!line(s))
      return "only " + std::to_string(i) + " of " + std::to_string(rows) + " rows are complete";
    std::vector<double> want = { (double)i };
    if (table == 0)
      append(want, l.GetPosition(i));
    else if (table == 1)
      append(want, l.GetVector(0, i));
    else if (table == 2)
      append(want, l.GetMomentum(i));
    else {
      auto [a, b] = l.GetIndividualIndices(i);
      want = { (double)l.GetPairIndex(a, b), (double)a, (double)b };
      append(want, l.GetVector(0, a));
      append(want, l.GetVector(0, b));
      append(want, l.GetVector(a, b));
    }
    const char* p = s.c_str();
    for (size_t k = 0; k < want.size(); k++) {
      if (k && *p++ != ',')
        return "row " + std::to_string(i) + " is damaged: '" + s.substr(0, 200) + "'";
      char* e;
      double got = strtod(p, &e);
      if (e == p || (*p != '-' && *p != '.' && !isdigit((unsigned char)*p)))
        return "row " + std::to_string(i) + " is damaged: '" + s.substr(0, 200) + "'";
      if (!(got == want[k])) {
        char buf[300];
        snprintf(buf, sizeof buf, "row %zu column %zu reads %.17g, the lattice reports %.17g", i, k, got, want[k]);
        return buf;
      }
      p = e;
    }
    if (*p)
      return "row " + std::to_string(i) + " continues: '" + s.substr(0, 200) + "'";
  }
  if (at != text.size())
    return "the file continues after the table: '" + text.substr(at, 80) + "'";
  return "";
}

void
exec(const Plan& p, Run& r)
{
  warm_up();
  fs::reset(&r);
  static const char* names[] = { "SavePositions", "SaveDistances", "SaveMomenta", "SavePairs" };
  std::vector<Lattice> lat;
  lat.push_back(make(p.c(0), { p.c(1), p.c(2), p.c(3) }, p.c(4) & 1));
  lat.push_back(make(p.c(5), { p.c(6), p.c(7), p.c(8) }, p.c(9) & 1));
  uint64_t failures = 0;
  for (auto& s : p.steps) {
    r.mixs(s.op);
    if (s.op == "save") {
      auto& l = lat[(uint64_t)s.at(0) % 2];
      int t = (int)((uint64_t)s.at(1) % 4);
      if (t == 3 && l.GetNumSites() > 1000)
        t = 0;
      const char* f = kFile[(uint64_t)s.at(2) % 2];
      const bool had = fs::exists(f);
      const auto old = had ? fs::get(f).size() : 0;
      auto o = under_faults(r, s, 3, f, [&] {
        switch (t) {
          case 0:
            return l.SavePositions(f);
          case 1:
            return l.SaveDistances(f);
          case 2:
            return l.SaveMomenta(f);
          default:
            return l.SavePairs(f);
        }
      });
      r.mix(o.threw);
      if (o.threw) {
        failures++;
        r.nontrivial();
        if (!o.harmed)
          r.fail("spurious", "%s failed (%s) although nothing went wrong", names[t], o.what.c_str());
        r.probe("failure-reported");
      } else {
        if (!fs::exists(f))
          r.fail("missing", "%s returned normally but there is no file", names[t]);
        auto text = fs::get(f);
        r.mixs(text);
        auto err = verify(l, t, text);
        if (!err.empty())
          r.fail("table", "%s returned normally but %s%s", names[t], err.c_str(), o.harmed ? " (a failure was not reported)" : "");
        if (old > text.size())
          r.probe("shorter-than-before");
        if (text.size() > 16384)
          r.probe("large-table");
        if (l.HasOpenBoundaries())
          r.probe("open-boundaries");
        if (l.GetNumSites() > 65536)
          r.probe("more-than-65536-rows");
        if (t == 3 && l.GetNumSites() > 256)
          r.probe("pairs-of-more-than-256-sites");
      }
      r.state(sim::hmix(sim::hmix(sim::hmix((uint64_t)t * 2 + o.threw, fs::exists(f) ? fs::get(f).size() : ~0ull), l.GetNumSites()), failures));
    } else if (s.op == "old") {
      // something else is in the file
      Rng g((uint64_t)s.at(2));
      std::string junk;
      for (int64_t n = std::min<int64_t>(200000, s.at(1)); n > 0; n--)
        junk += (char)(g.chance(0.1) ? '\n' : g.range(32, 126));
      fs::put(kFile[(uint64_t)s.at(0) % 2], junk);
    } else if (s.op == "new") {
      lat[(uint64_t)s.at(0) % 2] = make(s.at(1), { s.at(2), s.at(3), s.at(4) }, s.at(5) & 1);
    } else if (s.op == "copy") {
      lat[(uint64_t)s.at(0) % 2] = lat[(uint64_t)(s.at(0) + 1) % 2];
    }
  }
}

Plan
gen(Rng& g, bool thorough)
{
  Plan p;
  auto spec = [&](std::vector<int64_t>& v) {
    if (g.chance(0.004)) {
      const int64_t huge = g.chance(0.5) ? 200000 : 2000;
      v.insert(v.end(), { 0, huge + g.range(0, 99), 1, 1, g.range(0, 1) });
      return;
    }
    v.push_back(g.chance(0.75) ? g.range(0, 3) : g.range(4, kBravaisTypes - 1));
    for (int k = 0; k < 3; k++)
      v.push_back(g.chance(0.5) ? g.range(1, 4) : g.range(1, g.chance(0.3) ? 139 : 20));
    v.push_back(g.range(0, 1));
  };
  spec(p.cfg);
  spec(p.cfg);
  for (int n = (int)g.range(1, thorough ? 12 : 7); n > 0; n--) {
    switch (g.below(9)) {
      case 0:
        p.add("old", { g.range(0, 1), g.chance(0.5) ? g.range(0, 300) : g.range(0, 40000), (int64_t)(g.next() >> 1) });
        break;
      case 1: {
        std::vector<int64_t> a = { g.range(0, 1) };
        spec(a);
        p.add("new", a);
        break;
      }
      case 2:
        p.add("copy", { g.range(0, 1) });
        break;
      default: {
        std::vector<int64_t> a = { g.range(0, 1), g.range(0, 3), g.range(0, 1) };
        write_faults(g, a, g.chance(0.5) ? 700 : g.chance(0.5) ? 9000 : g.chance(0.9) ? 70000 : 2000000);
        p.add("save", a);
      }
    }
  }
  return p;
}
}

const sim::CheckDef&
sim::check()
{
  static CheckDef d;
  d.property = "C08";
  d.rule = "Each run builds two lattices (the predefined types and twelve others in one to four dimensions, open and closed, up to 139 sites, now and then some 260 or 65550) and saves positions, distances, momenta and pairs into files that may hold something else, over a simulated disk: failed opens, interrupted, short and failing writes, full disks, machine stops and failing allocations at chosen calls; lattices are reassigned in between. After every save that returned normally the file is parsed and compared number by number with what the lattice reports. Non-trivial: at least one save failed and reported it.";
  d.state_measure = "(table, outcome, size of the file, sites, failures so far)";
  d.real = { "bwsl/Lattice.hpp", "bwsl/HyperCubicGrid.hpp", "bwsl/Bravais.hpp", "bwsl/Pairs.hpp", "fmt", "libstdc++ file streams" };
  d.stub = { "system calls and disk (in memory, with faults)", "operator new (failure injection)" };
  d.assumptions = { "an error reported only by close() is not injected", "what write() accepted survives" };
  d.must_fire = { "open-error", "write-EINTR", "write-short", "write-EIO", "write-ENOSPC", "write-crash", "disk-full", "out-of-memory", "failure-reported", "shorter-than-before", "large-table", "more-than-65536-rows", "pairs-of-more-than-256-sites", "open-boundaries" };
  d.quick_runs = 16000;
  d.thorough_runs = 250000;
  d.generate = gen;
  d.execute = exec;
  return d;
}
