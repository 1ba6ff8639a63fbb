// C07: each measurement reaches the output file in exactly one row, or is kept.
#include "common.hpp"
#include <boost/serialization/vector.hpp>
#include <bwsl/Accumulators.hpp>
#include <bwsl/ObservableGroup.hpp>
#include <map>

using namespace chk;
namespace fs = sim::fs;

namespace {

template<class K>
K
key(int64_t i)
{
  i = (int64_t)((uint64_t)i % 5000);
  if constexpr (std::is_same_v<K, std::string>) {
    static const char* odd[] = { "energy", "{}", "", "%s", "a b", "Count" };
    if (i < 6)
      return odd[i];
    return "observable_number_" + std::to_string(i);
  } else
    return (K)(i < 80 ? i * 37 % 80 - 40 : i * 1009);
}
template<class K>
std::string
text(const K& k)
{
  if constexpr (std::is_same_v<K, std::string>)
    return k;
  else
    return std::to_string(k);
}

// measurements in any unit
const double units[] = { 1, 1, 1, 0x1p-900, 0x1p850 };

struct Kept : std::vector<double>
{
  uint64_t zeros = 0; // measured before
  void clear()
  {
    std::vector<double>::clear();
    zeros = 0;
  }
};

template<class K>
struct Sim
{
  Run& r;
  static constexpr int N = 2;
  const char* file[N] = { "/simfs/obs_a.csv", "/simfs/obs_b.csv" };
  bwsl::ObservableGroup<K> g[N] = { bwsl::ObservableGroup<K>(file[0]), bwsl::ObservableGroup<K>(file[1]) };
  std::map<K, Kept> m[N];
  uint64_t failures = 0, rows = 0;

  std::string check_row(int i, const std::string& row, int prec, const char* when)
  {
    // exactly one line
    if (row.empty() || row.back() != '\n' || row.find('\n') != row.size() - 1)
      return "the print returned normally but did not append exactly one line";
    std::vector<std::string> f;
    size_t b = 0;
    std::string line = row.substr(0, row.size() - 1);
    while (true) {
      auto e = line.find(',', b);
      f.push_back(line.substr(b, e == std::string::npos ? e : e - b));
      if (e == std::string::npos)
        break;
      b = e + 1;
    }
    if (f.size() != m[i].size() + 1)
      return "the row has " + std::to_string(f.size()) + " fields for " + std::to_string(m[i].size()) + " observables";
    size_t at = 0;
    for (auto& kv : m[i]) {
      auto& v = kv.second;
      auto& t = f[at++];
      if (v.empty() && !v.zeros) {
        if (t != "nan" && t != "-nan")
          return "the mean of '" + text(kv.first) + "', which has no measurements, reads " + t;
        continue;
      }
      quad s = 0, sa = 0, n = (quad)v.size() + (quad)v.zeros, k = (quad)v.size();
      for (double x : v) {
        s += x;
        sa += std::fabs(x);
      }
      char* end;
      double got = strtod(t.c_str(), &end);
      if (t.empty() || *end)
        return "the mean of '" + text(kv.first) + "' is not a number: '" + t + "'";
      if (!std::isfinite((double)sa)) {
        if (std::isfinite(got))
          return "the mean of '" + text(kv.first) + "' reads " + t + " although not all measurements were finite";
        continue;
      }
      quad want = s / n;
      quad tol = (3 * kU + 8 * k * kU * kU) * sa / n + 4 * kU * qabs(want) + (quad)(0.51 * std::pow(10.0, -prec)) * (qabs(want) + (3 * kU * sa / n)) * 1.01 + 1e-300;
      if (v.size() == 1 && !v.zeros) { // no rounding but that of the text
        double x = v[0];
        tol = qabs(want) * kU + 1e-323;
        if (prec < 20 && std::fabs(x) > 1e-290)
          tol += (quad)(0.501 * std::pow(10.0, std::floor(std::log10(std::fabs(x))) - prec));
      }
      if (!within(got, want, tol)) {
        char buf[256];
        snprintf(buf, sizeof buf, "the mean of '%s' reads %s, exact %.17g over %zu measurements", text(kv.first).c_str(), t.c_str(), (double)want, (size_t)(v.size() + v.zeros));
        return buf;
      }
    }
    uint64_t count = m[i].empty() ? 0 : m[i].begin()->second.size() + m[i].begin()->second.zeros;
    if (f.back() != std::to_string(count))
      return "the count reads " + f.back() + ", expected " + std::to_string(count);
    (void)when;
    return "";
  }

  std::vector<fs::Fault> faults(const Step& s, size_t at)
  {
    std::vector<fs::Fault> v;
    for (; at + 6 <= s.a.size() && v.size() < 2; at += 6)
      v.push_back(fs::decode(s.a, at));
    return v;
  }

  /// args: group, precision, nth allocation, sticky, room on disk (-1), faults...
  void print(const Step& s, bool headers)
  {
    int i = (int)((uint64_t)s.at(0) % N);
    int prec = (int)((uint64_t)s.at(1) % 40);
    if ((uint64_t)s.at(1) % 41 == 40)
      prec = 300;
    const auto before = fs::get(file[i]);
    fs::arm(faults(s, 5));
    if (s.at(4) >= 0) {
      int64_t used = 0;
      for (auto& f : fs::list())
        used += (int64_t)fs::get(f).size();
      fs::capacity((headers ? used - (int64_t)before.size() : used) + s.at(4));
    }
    bool threw = false;
    uint64_t oom = 0;
    std::string what;
    try {
      sim::mem::Scope scope(s.at(2), s.at(3) & 1);
      try {
        if (headers)
          g[i].PrintHeaders();
        else if (prec == 10)
          g[i].PrintAndReset();
        else
          g[i].PrintAndReset((size_t)prec);
      } catch (...) {
        oom = sim::mem::failures();
        throw;
      }
      oom = sim::mem::failures();
    } catch (const std::exception& e) {
      threw = true;
      what = e.what();
    }
    auto fired = fs::fired();
    bool harmed = oom || fired.errors || fired.crash || fired.nospace;
    if (oom)
      r.fault("out-of-memory");
    fs::disarm();
    fs::capacity(-1);
    const auto after = fs::get(file[i]);
    r.mixs(after);
    r.mix(threw);
    const char* op = headers ? "PrintHeaders" : "PrintAndReset";
    if (threw) {
      failures++;
      if (!harmed)
        r.fail("spurious", "%s failed (%s) although nothing went wrong", op, what.c_str());
      r.probe(headers ? "headers-failure-reported" : "print-failure-reported");
    }
    if (headers) {
      if (!threw) {
        std::string want;
        for (auto& kv : m[i])
          want += text(kv.first) + ",";
        want += "Count\n";
        if (after != want)
          r.fail("header", "PrintHeaders returned normally but the file holds '%.200s' instead of '%.200s'", after.c_str(), want.c_str());
      }
      return;
    }
    if (after.compare(0, before.size(), before) != 0)
      r.fail("lost-rows", "PrintAndReset changed what the file held before");
    auto delta = after.substr(before.size());
    if (!threw) {
      auto err = check_row(i, delta, prec, "");
      if (!err.empty())
        r.fail("row", "%s%s", err.c_str(), harmed ? " (a failure was not reported)" : "");
      for (auto& kv : m[i])
        kv.second.clear();
      rows++;
      if (m[i].size() > 256)
        r.probe("more-than-256-observables");
      if (harmed)
        r.probe("row-complete-despite-a-failure");
    } else if (delta.find('\n') != std::string::npos)
      r.fail("double-row", "PrintAndReset reported a failure but has appended a complete row; the kept measurements will be written again");
  }

  void run(const Plan& p)
  {
    const double unit = units[(uint64_t)p.c(3) % 5];
    for (int64_t k = 0; k < (int64_t)((uint64_t)p.c(1) % 4000); k++) {
      g[0].AddObservable(key<K>(k));
      m[0][key<K>(k)];
    }
    for (int64_t k = 0; k < (int64_t)((uint64_t)p.c(2) % 4); k++) {
      g[1].AddObservable(key<K>(k + 3));
      m[1][key<K>(k + 3)];
    }
    for (auto& s : p.steps) {
      int i = (int)((uint64_t)s.at(0) % N), j = (int)((uint64_t)s.at(1) % N);
      r.mixs(s.op);
      if (s.op == "measure") {
        auto k = key<K>(s.at(1));
        double x = bitsd(s.at(2));
        if (std::isfinite(x) && std::fabs(x) > 1e280)
          x = 1.5;
        if (!std::isfinite(x))
          r.probe("not-finite");
        bool unknown = false;
        try {
          g[i].Measure(k, x);
        } catch (const std::out_of_range&) {
          unknown = true;
          r.probe("unknown-observable");
        }
        if (unknown != !m[i].count(k))
          r.fail("measure", "measuring '%s', which is %sone of the observables, was %s", text(k).c_str(), m[i].count(k) ? "" : "not ", unknown ? "refused" : "accepted");
        if (!unknown)
          m[i][k].push_back(x);
      } else if (s.op == "all") {
        Rng q((uint64_t)s.at(1));
        for (int64_t n = 0; n < std::min<int64_t>(200, s.at(2)); n++)
          for (auto& kv : m[i]) {
            double x = unit * value(q, (int)s.at(3));
            g[i].Measure(kv.first, x);
            kv.second.push_back(x);
          }
      } else if (s.op == "addobs") {
        auto k = key<K>(s.at(1));
        bool failed = false;
        try {
          sim::mem::Scope scope(s.at(2), s.at(3) & 1);
          g[i].AddObservable(k);
        } catch (const std::bad_alloc&) {
          failed = true;
          r.fault("out-of-memory");
        }
        if (!failed)
          m[i][k]; // keeps what an existing observable holds
      } else if (s.op == "print")
        print(s, false);
      else if (s.op == "headers")
        print(s, true);
      else if (s.op == "age") {
        // very many measurements, all zero: the checkpoint of a short history
        // with its counts replaced
        uint64_t n = (uint64_t)s.at(1) >> (2 + (uint64_t)s.at(1) % 48);
        if (n < 3000)
          continue;
        bwsl::ObservableGroup<K> y(file[i]);
        for (auto& kv : m[i]) {
          y.AddObservable(kv.first);
          for (int k = 0; k < 1013; k++)
            y.Measure(kv.first, 0.0);
        }
        size_t done = 0;
        auto t = reworded(save(y, 0), { { "1013", std::to_string(n) } }, done);
        if (done < m[i].size())
          continue; // the archive does not show the counts
        load(g[i], t, 0);
        for (auto& kv : m[i]) {
          kv.second.clear();
          kv.second.zeros = n;
        }
        r.probe("aged");
      } else if (s.op == "foreign") {
        // another process appends to the file
        fs::put(file[i], fs::get(file[i]) + "# a note\n");
        r.fault("file-extended-by-another-process");
      } else if (s.op == "rotate") {
        fs::erase(file[i]);
        r.fault("file-removed-by-another-process");
      } else if (s.op == "handover") {
        auto c = g[i];
        g[i] = bwsl::ObservableGroup<K>("/simfs/none.csv");
        g[i] = (s.at(1) & 1) ? std::move(c) : c;
      } else if (s.op == "restart") {
        // the process dies; its checkpoint and its files survive
        auto before = fs::get(file[i]);
        int fmt = (int)s.at(1);
        for (auto& kv : m[i])
          for (double x : kv.second)
            if (!std::isfinite(x))
              fmt = 1; // text archives cannot express infinities
        auto data = save(g[i], fmt);
        g[i].~ObservableGroup<K>();
        new (&g[i]) bwsl::ObservableGroup<K>("/simfs/none.csv", { key<K>(70), key<K>(71) });
        load(g[i], data, fmt);
        if (fs::get(file[i]) != before)
          r.fail("late-write", "the file of a group changed when the process ended");
        r.fault("crash-restart");
      }
      (void)j;
      uint64_t h = 0;
      for (int k = 0; k < N; k++) {
        h = sim::hmix(h, m[k].size());
        h = sim::hmix(h, m[k].empty() ? 0 : std::min<uint64_t>(9, m[k].begin()->second.size()));
        const auto held = fs::get(file[k]);
        h = sim::hmix(h, (uint64_t)std::count(held.begin(), held.end(), '\n'));
      }
      r.state(sim::hmix(h, failures));
    }
    // nothing may be lost at the end: print what is left without faults
    for (int i = 0; i < N; i++) {
      Step s{ "print", { i, 17, 0, 0, -1 } };
      print(s, false);
    }
    if (failures)
      r.nontrivial();
  }
};

Plan
gen(Rng& g, bool thorough)
{
  Plan p;
  p.cfg = { g.range(0, 1), g.chance(0.003) ? g.range(250, 3000) : g.chance(0.08) ? 0 : g.chance(0.2) ? g.range(20, 69) : g.range(1, 6), g.range(0, 3), g.range(0, 4) };
  const bool wild = g.chance(0.1);
  int n = (int)g.range(3, thorough ? 45 : 25);
  auto out = [&](const char* op) {
    std::vector<int64_t> a = { g.range(0, 1), g.chance(0.03) ? 40 : g.chance(0.3) ? 10 : g.range(0, 20), 0, 0, -1 };
    switch (g.below(8)) {
      case 0:
      case 1:
        break;
      case 2:
        a[2] = g.range(1, 12);
        a[3] = g.range(0, 1);
        break;
      case 3:
        a[4] = g.chance(0.4) ? g.range(0, 4) : g.range(0, p.cfg[1] > 200 ? 90000 : 900);
        break;
      default: {
        for (int q = (int)g.range(1, 2); q > 0; q--) {
          fs::Fault f;
          switch (g.below(10)) {
            case 0:
            case 1:
              f.op = fs::kOpen;
              f.what = fs::kOpenErr;
              f.arg = g.range(0, 7);
              break;
            case 2:
              f.op = (int)g.range(fs::kSeek, fs::kStat);
              f.what = fs::kEIO;
              break;
            default: {
              f.op = fs::kWrite;
              static const int w[] = { fs::kEINTR, fs::kShort, fs::kShort, fs::kEIO, fs::kEIO, fs::kENOSPC, fs::kCrash };
              f.what = w[g.below(7)];
              f.arg = g.chance(0.3) ? g.range(1, 3) : g.range(1, p.cfg[1] > 200 ? 9000 : 300);
            }
          }
          f.nth = g.chance(0.6) ? 1 : g.range(1, 5);
          f.count = g.chance(0.7) ? 1 : g.range(1, 40);
          for (auto v : fs::encode(f))
            a.push_back(v);
        }
      }
    }
    p.add(op, a);
  };
  if (g.chance(0.7))
    out("headers");
  for (int k = 0; k < n; k++) {
    int64_t i = g.range(0, 1);
    switch (g.below(15)) {
      case 14:
        p.add("age", { i, (int64_t)(g.next() >> 1) });
        break;
      case 0:
      case 1:
      case 2:
        static const double odd[] = { INFINITY, -INFINITY, NAN, -0.0, 5e-324 };
        p.add("measure", { i, g.range(0, 9), dbits(wild && g.chance(0.2) ? odd[g.below(5)] : units[p.cfg[3]] * value(g, (int)g.range(0, 7))) });
        break;
      case 3:
      case 4:
        p.add("all", { i, (int64_t)(g.next() >> 1), g.range(1, 20), g.range(0, 7) });
        break;
      case 5:
        p.add("addobs", { i, g.range(0, 9), g.chance(0.3) ? g.range(1, 3) : 0, g.range(0, 1) });
        break;
      case 6:
        p.add("handover", { i, g.range(0, 1) });
        break;
      case 7:
        p.add("restart", { i, g.range(0, 1) });
        break;
      case 8:
        if (g.chance(0.3))
          p.add("rotate", { i });
        else if (g.chance(0.3))
          p.add("foreign", { i });
        else
          out("headers");
        break;
      default:
        out("print");
    }
  }
  return p;
}

void
exec(const Plan& p, Run& r)
{
  warm_up();
  fs::reset(&r);
  if (p.c(0) & 1) {
    Sim<int> s{ r };
    s.run(p);
  } else {
    Sim<std::string> s{ r };
    s.run(p);
  }
}
}

const sim::CheckDef&
sim::check()
{
  static CheckDef d;
  d.property = "C07";
  d.rule = "Each run drives two observable groups (string or integer keys, 0 to 70 observables, now and then up to 3000) through measurements, prints, headers, added observables, copies, process restarts and file rotation over a simulated disk; prints and headers meet failed opens, interrupted, short and failing writes, full disks, machine stops and failing allocations at chosen calls. After every output the change of the file is compared with a model of the measurements; what is left at the end is printed without faults. Non-trivial: at least one output failed.";
  d.state_measure = "(observables, clipped pending measurements and rows in the file of each group, failures)";
  d.real = { "bwsl/ObservableGroup.hpp", "bwsl/accumulators/KahanAccumulator.hpp", "fmt", "libstdc++ file streams", "boost archives" };
  d.stub = { "system calls and disk (in memory, with faults)", "operator new (failure injection)", "process death" };
  d.assumptions = { "an error reported only by close() is not injected", "what write() accepted survives the process", "the count of a row is that of its first observable", "a fragment without line end left by a failed print is not a row" };
  d.must_fire = { "not-finite", "more-than-256-observables", "file-extended-by-another-process", "open-error", "write-EINTR", "write-short", "write-EIO", "write-ENOSPC", "write-crash", "disk-full", "out-of-memory", "crash-restart", "file-removed-by-another-process", "print-failure-reported", "headers-failure-reported", "unknown-observable", "aged" };
  d.quick_runs = 24000;
  d.thorough_runs = 400000;
  d.generate = gen;
  d.execute = exec;
  return d;
}
