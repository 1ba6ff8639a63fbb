// C13: the state dumper either prints the whole state or exits with failure.
#include "faults.hpp"
#include <ext/stdio_sync_filebuf.h>
#include <iostream>
#include <random>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace chk;
namespace fs = sim::fs;

extern "C" int
dump_main(int, char**); // the program's main()

namespace {

const char* kOut = "/simfs/stdout";
constexpr size_t kRoom = 1 << 16;

/// What the finished process left behind
struct Left
{
  uint64_t done, size, errors, nospace, crash, benign, oom;
  char data[kRoom];
};
Left* left;

void
at_exit()
{
  // what the C++ runtime does when a process ends
  sim::mem::disarm();
  left->oom = sim::mem::failures();
  std::cout.flush();
  fflush(nullptr);
  auto f = fs::fired();
  left->errors = f.errors;
  left->nospace = f.nospace;
  left->crash = f.crash;
  left->benign = f.benign;
  auto s = fs::get(kOut);
  left->size = s.size();
  memcpy(left->data, s.data(), std::min(s.size(), kRoom));
  left->done = 1;
}

std::string
seed_text(int64_t kind, int64_t v)
{
  uint64_t s = (uint64_t)v;
  switch ((uint64_t)kind % 6) {
    case 0:
      s %= 1000;
      break;
    case 1:
      s = ~0ull - s % 4;
      break;
    case 2: // around the powers of two
      s = (1ull << (s % 64)) + (s / 64) % 3 - 1;
      break;
    case 3: // around the powers of ten
    {
      uint64_t p = 1;
      for (uint64_t k = s % 20; k > 0; k--)
        p *= 10;
      s = p + (s / 64) % 3 - 1;
      break;
    }
    case 4:
      s >>= s % 64;
      break;
    default:
      break;
  }
  // as in the names of numbered files
  return std::string((uint64_t)kind / 6 % 4, '0') + std::to_string(s);
}

void
exec(const Plan& p, Run& r)
{
  warm_up();
  left = (Left*)mmap(nullptr, sizeof(Left), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (auto& s : p.steps) {
    // args: arguments (0, 1, 2), seed kind, seed, nth alloc, sticky, room, faults...
    const int nargs = (int)((uint64_t)s.at(0) % 3);
    std::string text = seed_text(s.at(1), s.at(2));
    memset(left, 0, 64);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      fs::reset(nullptr);
      FILE* f = fs::alias(1, kOut);
      stdout = f;
      static __gnu_cxx::stdio_sync_filebuf<char> buf(f);
      std::cout.rdbuf(&buf);
      atexit(at_exit);
      std::vector<fs::Fault> v;
      for (size_t k = 6; k + 6 <= s.a.size() && v.size() < 2; k += 6)
        v.push_back(fs::decode(s.a, k));
      if (s.at(5) >= 0)
        fs::capacity(s.at(5));
      fs::arm(v);
      std::string prog = "dumpmt", more = "12345";
      char* argv[] = { &prog[0], nargs > 0 ? &text[0] : nullptr, nargs > 1 ? &more[0] : nullptr, nullptr };
      alarm(20);
      sim::mem::arm(s.at(3), s.at(4) & 1);
      exit(dump_main(1 + nargs, argv));
    }
    if (pid < 0)
      abort();
    int st = 0;
    while (waitpid(pid, &st, 0) < 0)
      ;
    const bool success = WIFEXITED(st) && WEXITSTATUS(st) == 0;
    const std::string out(left->data, std::min<size_t>(left->size, kRoom));
    const bool harmed = left->errors || left->nospace || left->crash || left->oom;
    if (left->errors)
      r.fault("output-error");
    if (left->nospace)
      r.fault("output-full");
    if (left->crash)
      r.fault("output-gone");
    if (left->benign)
      r.fault("output-short-or-interrupted");
    if (left->oom)
      r.fault("out-of-memory");
    r.mix(success);
    r.mixs(out);
    r.state(sim::hmix(sim::hmix(out.size(), (uint64_t)success * 8 + (uint64_t)nargs), left->errors + 2 * left->nospace));
    if (nargs == 0) {
      if (success)
        r.fail("no-seed", "without a seed the program exited with success");
      r.probe("no-seed-refused");
      continue;
    }
    if (!success) {
      if (!harmed && !left->benign)
        r.fail("spurious", "with seed %s and nothing going wrong the program %s %d", text.c_str(), WIFEXITED(st) ? "exited with status" : "died of signal", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st));
      r.nontrivial();
      r.probe("failure-reported");
      continue;
    }
    std::istringstream is(out);
    std::mt19937_64 got, want(std::strtoull(text.c_str(), nullptr, 10));
    is >> got;
    if (!is || !(is >> std::ws).eof())
      r.fail("incomplete", "with seed %s the program exited with success after writing %zu bytes that are not a generator state%s", text.c_str(), out.size(), harmed ? " (its output had failed)" : "");
    if (!(got == want))
      r.fail("state", "with seed %s the program printed the state of another generator", text.c_str());
    if (harmed || left->benign) {
      r.nontrivial();
      r.probe("complete-despite-a-failure");
    }
  }
  munmap(left, sizeof(Left));
}

Plan
gen(Rng& g, bool thorough)
{
  Plan p;
  for (int n = (int)g.range(1, thorough ? 8 : 4); n > 0; n--) {
    std::vector<int64_t> a = { g.chance(0.05) ? 0 : g.chance(0.9) ? 1 : 2, g.chance(0.8) ? g.range(0, 5) : g.range(0, 23), (int64_t)g.next(), 0, 0, -1 };
    // memory that runs out is none of the failures the program has to notice:
    // a[3], a[4] stay zero
    switch (g.below(6)) {
      case 0:
        break;
      case 2:
      case 3:
        a[5] = g.chance(0.3) ? g.range(0, 10) : g.chance(0.3) ? g.range(4000, 4200) : g.range(0, 6700);
        break;
      default:
        for (int q = (int)g.range(1, 2); q > 0; q--) {
          fs::Fault f;
          f.op = fs::kWrite;
          static const int w[] = { fs::kEINTR, fs::kShort, fs::kEIO, fs::kENOSPC, fs::kCrash };
          f.what = w[g.below(5)];
          f.arg = g.chance(0.3) ? g.range(1, 9) : g.range(1, 4096);
          f.nth = g.range(1, 3);
          f.count = g.chance(0.6) ? 1 : g.range(1, 20);
          for (auto v : fs::encode(f))
            a.push_back(v);
        }
    }
    p.add("dump", a);
  }
  return p;
}
}

const sim::CheckDef&
sim::check()
{
  static CheckDef d;
  d.property = "C13";
  d.rule = "Each run starts the program up to four times (its real main(), in a process of its own, through exit and the final flushes) with seeds from 0 to 2^64-1, or none, its standard output on a simulated disk that is full after a chosen byte or fails, is interrupted or takes too little at a chosen write; allocations fail. The bytes that arrived are read back into a generator and compared. Non-trivial: something went wrong during the output.";
  d.state_measure = "(bytes written, exit status, arguments, kinds of failure)";
  d.real = { "applications/dumpmt.cpp", "libstdc++ streams and generators", "C library stdio" };
  d.stub = { "standard output (simulated file, faults)" };
  d.assumptions = { "an error reported only by close() is not injected", "only decimal seeds are given, some with leading zeros" };
  d.must_fire = { "output-error", "output-full", "output-gone", "output-short-or-interrupted", "no-seed-refused", "failure-reported", "complete-despite-a-failure" };
  d.quick_runs = 20000;
  d.thorough_runs = 150000;
  d.generate = gen;
  d.execute = exec;
  return d;
}
