// C09: two files compare equal only if every byte of both was read and agrees.
#include "faults.hpp"
#include <bwsl/FileUtils.hpp>

using namespace chk;
namespace fs = sim::fs;

namespace {

// 0, 1: plain files; 2: never exists; 3: a folder; 4: below a missing folder
const char* kPath[] = { "/simfs/a.bin", "/simfs/b.bin", "/simfs/none.bin", "/simfs/dir", "/simfs/nodir/x.bin" };

std::string
content(int64_t size, int64_t seed, int64_t kind)
{
  Rng g((uint64_t)seed);
  std::string s((size_t)std::max<int64_t>(0, std::min<int64_t>(size, 1 << 23)), '\0');
  for (auto& c : s)
    switch ((uint64_t)kind % 4) {
      case 0:
        c = (char)g.below(256);
        break;
      case 1:
        c = (char)(g.chance(0.2) ? 0xff : 'a'); // a byte that looks like an end of file
        break;
      case 2:
        c = (char)g.below(2);
        break;
      default:
        c = g.chance(0.1) ? '\n' : g.chance(0.1) ? '\r' : ' ';
    }
  return s;
}

void
exec(const Plan& p, Run& r)
{
  warm_up();
  fs::reset(&r);
  fs::mkdir(kPath[3]);
  fs::name(0, kPath[0]);
  fs::name(1, kPath[1]);
  uint64_t answers = 0;
  for (auto& s : p.steps) {
    r.mixs(s.op);
    if (s.op == "fill") {
      // args: file, size, seed, kind
      fs::put(kPath[(uint64_t)s.at(0) % 2], content(s.at(1), s.at(2), s.at(3)));
    } else if (s.op == "copy")
      fs::put(kPath[1], fs::exists(kPath[0]) ? fs::get(kPath[0]) : "");
    else if (s.op == "erase")
      fs::erase(kPath[(uint64_t)s.at(0) % 2]);
    else if (s.op == "flip") {
      // one byte, counted from the start or the end
      auto f = kPath[(uint64_t)s.at(0) % 2];
      if (!fs::exists(f))
        continue;
      auto d = fs::get(f);
      if (!d.empty()) {
        auto at = (uint64_t)s.at(1) % d.size();
        if (s.at(2) & 1)
          at = d.size() - 1 - at;
        d[at] = (char)(d[at] ^ (1 << ((uint64_t)s.at(3) % 8)));
        fs::put(f, d);
      }
    } else if (s.op == "resize") {
      auto f = kPath[(uint64_t)s.at(0) % 2];
      if (!fs::exists(f))
        continue;
      auto d = fs::get(f);
      auto n = (int64_t)d.size() + s.at(1) % 100000;
      d.resize((size_t)std::max<int64_t>(0, n), (char)s.at(2));
      fs::put(f, d);
    } else if (s.op == "giant") {
      // one of the files continues with zeros, for gigabytes
      static const int64_t zeros[] = { 1ll << 32, 1ll << 31, 1ll << 33, (1ll << 32) - 1, 0xffff0000ll, 1ll << 40 };
      int f = (int)((uint64_t)s.at(0) % 2);
      fs::tail(kPath[1 - f], 0);
      fs::tail(kPath[f], zeros[(uint64_t)s.at(1) % 6]);
    } else if (s.op == "compare") {
      size_t i = (uint64_t)s.at(0) % 5, j = (uint64_t)s.at(1) % 5;
      auto giant = [](size_t k) { return k < 2 && fs::exists(kPath[k]) && fs::inode(kPath[k])->tail > 0; };
      if (i == j && giant(i))
        continue; // would take too long
      const bool tail = giant(i) || giant(j);
      const bool readable = fs::exists(kPath[i]) && fs::exists(kPath[j]) && i != 3 && j != 3;
      const bool equal = readable && !tail && fs::get(kPath[i]) == fs::get(kPath[j]);
      bool answer = false;
      fs::watch();
      std::vector<fs::Fault> v;
      for (size_t k = 4; k + 6 <= s.a.size() && v.size() < 3; k += 6)
        v.push_back(fs::decode(s.a, k));
      fs::arm(v);
      bool threw = false;
      std::string what;
      uint64_t oom = 0;
      try {
        sim::mem::Scope scope(s.at(2), s.at(3) & 1);
        try {
          answer = bwsl::compare_files(kPath[i], kPath[j]);
        } catch (...) {
          oom = sim::mem::failures();
          throw;
        }
        oom = sim::mem::failures();
      } catch (const std::exception& e) {
        threw = true;
        what = e.what();
      }
      auto fired = fs::fired();
      fs::disarm();
      if (oom)
        r.fault("out-of-memory");
      const bool harmed = oom || fired.errors || fired.crash;
      r.mix((uint64_t)answer * 2 + threw);
      r.state(sim::hmix(sim::hmix(sim::hmix((uint64_t)answer * 2 + threw + 4 * equal, i * 5 + j), fired.errors * 16 + fired.changes), fs::exists(kPath[0]) ? fs::get(kPath[0]).size() : 0));
      answers++;
      if (fired.changes && !answer)
        r.probe("changed-file-refused");
      if (harmed) {
        r.nontrivial();
        r.probe(threw ? "failure-thrown" : answer ? "true-despite-failure" : "failure-answered-false");
      }
      if (tail) {
        r.probe("giant");
        if (answer)
          r.fail("different", "two files were called equal although one is gigabytes longer");
      }
      if (answer) {
        if (!readable && !fired.changes)
          r.fail("unreadable", "two files were called equal although %s cannot be read", fs::exists(kPath[i]) && i != 3 ? kPath[j] : kPath[i]);
        auto a = fs::inode(kPath[i]), b = fs::inode(kPath[j]);
        if (!a || !b)
          continue;
        if (!fired.changes && !equal)
          r.fail("different", "two different files were called equal%s", harmed ? " after a failed read" : "");
        if (a->delivered != b->delivered)
          r.fail("unread", "two files were called equal although different bytes were read from them (%zu and %zu bytes)", a->delivered.size(), b->delivered.size());
        uint64_t n = a->delivered.size();
        if (a->delivered.end() != n)
          r.fail("gap", "two files were called equal although %s was not read from the start to its end", kPath[i]);
        for (auto* f : { a.get(), b.get() }) {
          uint64_t smallest = *std::min_element(f->sizes.begin(), f->sizes.end());
          if (n < smallest)
            r.fail("unread", "two files were called equal after reading %llu bytes of a file never shorter than %llu", (unsigned long long)n, (unsigned long long)smallest);
        }
        r.probe(fired.changes ? "equal-while-changing" : "equal");
        if (n > 16384)
          r.probe("equal-large");
        if (n > 1000000)
          r.probe("equal-megabytes");
        if (fired.changes)
          r.nontrivial();
      } else {
        if (!harmed && !fired.changes && readable && equal)
          r.fail("equal", threw ? "comparing two identical files threw (%s) although nothing failed" : "two identical files were called different%s", what.c_str());
        if (threw && !harmed && !fired.changes && readable)
          r.fail("spurious", "comparing two readable files threw (%s) although nothing failed", what.c_str());
      }
    }
  }
  if (answers > 1)
    r.probe("several-comparisons");
}

Plan
gen(Rng& g, bool thorough)
{
  Plan p;
  static const int64_t edge[] = { 0, 1, 2, 511, 512, 1023, 1024, 4095, 4096, 8190, 8191, 8192, 8193, 16382, 16383, 16384, 16385, 32768, 65536 };
  auto size = [&]() -> int64_t {
    if (g.chance(0.004))
      return g.range(1 << 20, 5 << 20);
    if (g.chance(0.5))
      return edge[g.below(19)] + (g.chance(0.2) ? g.range(0, 3) : 0);
    return g.chance(0.5) ? g.range(0, 40) : g.range(0, thorough ? 120000 : 40000);
  };
  p.add("fill", { 0, size(), (int64_t)(g.next() >> 1), g.range(0, 3) });
  if (g.chance(0.8))
    p.add("copy");
  else
    p.add("fill", { 1, size(), (int64_t)(g.next() >> 1), g.range(0, 3) });
  for (int n = (int)g.range(1, 6); n > 0; n--) {
    switch (g.below(11)) {
      case 0:
        p.add("fill", { g.range(0, 1), size(), (int64_t)(g.next() >> 1), g.range(0, 3) });
        break;
      case 1:
        p.add("copy");
        break;
      case 2:
        p.add("flip", { g.range(0, 1), g.chance(0.5) ? g.range(0, 3) : (int64_t)(g.next() >> 1), g.range(0, 1), g.range(0, 7) });
        break;
      case 3:
        p.add("resize", { g.range(0, 1), g.chance(0.5) ? g.range(-3, 3) : g.range(-9000, 9000), g.range(0, 255) });
        break;
      case 4:
        if (g.chance(0.3))
          p.add("erase", { g.range(0, 1) });
        else if (g.chance(0.5)) {
          if (g.chance(0.7))
            p.add("copy");
          p.add("giant", { g.range(0, 1), g.range(0, 5) });
        }
        break;
      default: {
        std::vector<int64_t> a = { g.chance(0.9) ? g.range(0, 1) : g.range(0, 4), g.chance(0.85) ? 1 : g.range(0, 4), 0, 0 };
        int q = g.chance(0.25) ? 0 : (int)g.range(1, 3);
        for (; q > 0; q--) {
          fs::Fault f;
          f.nth = g.chance(0.4) ? g.range(1, 2) : g.chance(0.95) ? g.range(1, 24) : g.range(1, 900);
          f.count = g.chance(0.6) ? 1 : g.range(1, 60);
          switch (g.below(8)) {
            case 0:
              f.op = fs::kOpen;
              f.what = fs::kOpenErr;
              f.nth = g.range(1, 2);
              f.arg = g.range(0, 7);
              break;
            case 1:
              f.op = g.chance(0.8) ? fs::kSeek : fs::kStat;
              f.what = fs::kEIO;
              f.nth = g.range(1, 8);
              f.count = g.chance(0.5) ? 1 : g.range(2, 4);
              break;
            case 2:
              f.op = fs::kRead;
              f.what = fs::kEIO;
              break;
            case 3:
              f.op = fs::kRead;
              f.what = g.chance(0.5) ? fs::kEINTR : fs::kShort;
              f.arg = g.chance(0.5) ? g.range(1, 3) : g.range(1, 9000);
              break;
            case 4:
              f.op = fs::kRead;
              f.what = fs::kShort;
              f.arg = g.chance(0.5) ? g.range(1, 7) : g.range(1, 5000);
              f.count = 1000;
              f.nth = 1;
              break;
            default: {
              static const int w[] = { fs::kTruncate, fs::kExtend, fs::kOverwrite };
              f.op = g.chance(0.6) ? fs::kRead : g.chance(0.6) ? fs::kSeek : fs::kOpen;
              f.what = w[g.below(3)];
              f.arg = f.what == fs::kExtend ? (g.chance(0.5) ? g.range(1, 3) : g.range(1, 9000)) : g.chance(0.5) ? edge[g.below(16)] : g.range(0, 40000);
              f.arg2 = g.range(0, 1);
              f.count = 1;
              f.nth = g.range(1, 8);
            }
          }
          for (auto v : fs::encode(f))
            a.push_back(v);
        }
        p.add("compare", a);
      }
    }
  }
  return p;
}
}

const sim::CheckDef&
sim::check()
{
  static CheckDef d;
  d.property = "C09";
  d.rule = "Each run fills two files (sizes around every buffer boundary, up to 120 kB, now and then some megabytes or terabytes more than the other, contents with end-of-file and line-end look-alikes), changes single bytes or the length, and compares files (also with themselves, missing files, folders) over a simulated disk with failed opens, seeks and reads, interrupted and short reads, failing allocations, and another process truncating, extending or overwriting a file before a chosen call. The disk records every byte handed out; each answer is judged against the contents and that record. Non-trivial: a failure or a concurrent change fired during a comparison.";
  d.state_measure = "(answer, truth, files compared, errors and changes fired, size)";
  d.real = { "bwsl/FileUtils.hpp", "libstdc++ file streams" };
  d.stub = { "system calls and disk (in memory, with faults and a concurrent writer)", "operator new (failure injection)" };
  d.assumptions = { "a file changed during the comparison may be called equal if the bytes read from both, up to an end the file had, agree" };
  d.must_fire = { "open-error", "read-EINTR", "read-short", "read-EIO", "read-concurrent-truncate", "read-concurrent-extend", "read-concurrent-overwrite", "failure-thrown", "failure-answered-false", "equal", "equal-while-changing", "equal-large", "equal-megabytes", "giant", "changed-file-refused", "several-comparisons" };
  d.quick_runs = 16000;
  d.thorough_runs = 500000;
  d.generate = gen;
  d.execute = exec;
  return d;
}
