// C19: what the library answers, writes and archives depends on nothing but what
// it was given.
//
// The same program of operations runs in two fresh processes. The second is a
// different world: memory, stack, errno, locale, clock, entropy, environment and
// the past of the process are what the plan makes them. Every operation has to
// answer the same, bit for bit.
#include "../sim/fs.hpp"
#include "../sim/mem.hpp"
#include "workload.hpp"
#include <cerrno>
#include <cfenv>
#include <dlfcn.h>
#include <locale>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

// ---------------------------------------------------------------- the world
namespace {
enum What
{
  kMemory,
  kStack,
  kErrno,
  kLocale,
  kClock,
  kEntropy,
  kEnvironment,
  kFloatFlags,
  kStaleFile,
  kOpenFiles,
  kWhats
};
const char* const kWhat[kWhats] = { "memory", "stack", "errno", "locale", "clock", "entropy", "environment", "floating-flags", "stale-file", "open-files" };

struct World
{
  bool on = false;
  int64_t clock = 1700000000, tick = 1000, now = 0;
  uint64_t entropy = 1, process = 0;
  const char* environment = nullptr;
  int err = 0, stack = -1, flags = 0;
  uint64_t asked[4] = {}; // clock, entropy, environment
};
World world;
int64_t
nanoseconds()
{
  world.asked[0]++;
  world.now += world.tick;
  return world.now;
}
uint64_t
random_bits()
{
  world.asked[1]++;
  return sim::splitmix(world.entropy);
}
} // namespace

extern "C" {
int
clock_gettime(clockid_t id, struct timespec* t) noexcept
{
  if (!world.on)
    return (int)syscall(SYS_clock_gettime, id, t);
  auto n = nanoseconds();
  t->tv_sec = (time_t)(world.clock + n / 1000000000);
  t->tv_nsec = n % 1000000000;
  return 0;
}
time_t
time(time_t* t) noexcept
{
  timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  if (t)
    *t = s.tv_sec;
  return s.tv_sec;
}
int
gettimeofday(struct timeval* t, void*) noexcept
{
  timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  t->tv_sec = s.tv_sec;
  t->tv_usec = s.tv_nsec / 1000;
  return 0;
}
clock_t
clock() noexcept
{
  timespec s;
  clock_gettime(world.on ? CLOCK_REALTIME : CLOCK_PROCESS_CPUTIME_ID, &s);
  return s.tv_sec % 1000 * 1000000 + s.tv_nsec / 1000;
}
ssize_t
getrandom(void* p, size_t n, unsigned flags)
{
  if (!world.on)
    return syscall(SYS_getrandom, p, n, flags);
  for (size_t i = 0; i < n; i++)
    ((unsigned char*)p)[i] = (unsigned char)random_bits();
  return (ssize_t)n;
}
int
getentropy(void* p, size_t n)
{
  return getrandom(p, n, 0) == (ssize_t)n ? 0 : -1;
}
unsigned
simulated_random_device(void*) __asm__("_ZNSt13random_device9_M_getvalEv");
unsigned
simulated_random_device(void*)
{
  return (unsigned)random_bits();
}
pid_t
getpid() noexcept
{
  return world.on ? (pid_t)(1000 + world.process) : (pid_t)syscall(SYS_getpid);
}
char*
getenv(const char* name) noexcept
{
  if (world.on) {
    world.asked[2]++;
    return const_cast<char*>(world.environment);
  }
  size_t n = strlen(name);
  for (char** e = environ; e && *e; e++)
    if (!strncmp(*e, name, n) && (*e)[n] == '=')
      return *e + n + 1;
  return nullptr;
}
}

namespace {
class Country : public std::numpunct<char>
{
  char sep_, point_;
  std::string groups_;

public:
  Country(char sep, char point, std::string groups)
    : sep_(sep)
    , point_(point)
    , groups_(std::move(groups))
  {
  }
  char do_thousands_sep() const override { return sep_; }
  char do_decimal_point() const override { return point_; }
  std::string do_grouping() const override { return groups_; }
  std::string do_truename() const override { return "wahr"; }
  std::string do_falsename() const override { return "falsch"; }
};

__attribute__((noinline, no_sanitize_address)) void
paint_stack(int byte)
{
  volatile char area[40000];
  for (size_t i = 0; i < sizeof area; i++)
    area[i] = (char)byte;
}

void
enter(int what, uint64_t v)
{
  static const int bytes[6] = { 0, 0xFF, 0x01, 0x7F, 0x3F, -1 };
  static const char* const env[5] = { "", "1", "7", "0", "/nowhere" };
  static const int errs[6] = { ERANGE, EDOM, EINTR, ENOENT, ENOMEM, EINVAL };
  static const char* const names[3] = { "t.csv", "p.csv", "t.csv" };
  switch (what) {
    case kMemory:
      sim::mem::world(1 + (int)(v % 3), bytes[v / 3 % 6]);
      break;
    case kStack:
      world.stack = bytes[v % 5];
      break;
    case kErrno:
      world.err = errs[v % 6];
      break;
    case kLocale:
      std::locale::global(std::locale(std::locale::classic(), new Country(",.' _"[v % 5], ".,"[v / 5 % 2], v / 10 % 2 ? "\3" : "\1\2")));
      break;
    case kClock:
      world.clock = (int64_t)(v * 7919 % 4000000000ULL);
      world.tick = (int64_t)(1 + v * 104729 % 3000000000ULL);
      break;
    case kEntropy:
      world.entropy = v + 2;
      world.process = 1 + v % 30000;
      srand((unsigned)v + 2);
      srand48((long)v + 2);
      break;
    case kEnvironment:
      world.environment = env[v % 5];
      break;
    case kFloatFlags:
      world.flags = FE_ALL_EXCEPT;
      break;
    case kStaleFile: {
      std::string junk;
      for (uint64_t i = 0, n = 1 + v % 3000; i < n; i++)
        junk += i % 17 == 16 ? '\n' : (char)('0' + (i * v) % 43);
      sim::fs::put(std::string("/simfs/own0") + names[v % 3], junk);
      break;
    }
    case kOpenFiles:
      for (uint64_t i = 0; i < 1 + v % 20; i++)
        (void)dup(2);
      break;
  }
}

// ---------------------------------------------------------------- plan
// cfg: seed of the objects
// step op <operation> <seed>
// step differ <what> <value> <at>: before operation number <at>, from then on
// step past <operation> <seed> <at> <allocation that fails> <on shared objects>
Plan
generate(Rng& g, bool thorough)
{
  Plan p;
  p.cfg = { (int64_t)(g.next() >> 2) };
  std::vector<int64_t> kinds;
  for (int i = 0, n = 1 + (int)g.below(g.chance(0.5) ? 3 : 9); i < n; i++)
    kinds.push_back((int64_t)g.below(kOps));
  int ops = 1 + (int)g.below(thorough ? 12 : 7);
  for (int i = 0; i < ops; i++)
    p.add("op", { kinds[g.below(kinds.size())], (int64_t)(g.next() >> 2) });
  auto at = [&] { return g.chance(0.6) ? (int64_t)0 : (int64_t)g.below((uint64_t)ops); };
  for (int w = 0; w < kWhats; w++)
    if (g.chance(w == kMemory ? 0.7 : 0.35))
      p.add("differ", { w, (int64_t)g.below(1000000), at() });
  for (int i = 0, n = g.chance(0.3) ? 0 : 1 + (int)g.below(thorough ? 8 : 5); i < n; i++)
    p.add("past", { g.chance(0.7) ? kinds[g.below(kinds.size())] : (int64_t)g.below(kOps), (int64_t)(g.next() >> 2), at(),
                    g.chance(0.6) ? 0 : (int64_t)std::pow(2.0, g.unit() * 9), g.chance(0.4) });
  return p;
}

struct Told
{
  std::vector<std::string> answers;
  uint64_t failed = 0, pasts = 0, asked[4] = {};
  bool finished = false;
};

/// Whether an operation of the past is at work with an allocation failing
volatile int* failing = nullptr;

Told
live(const Plan& p, bool other)
{
  Told t;
  if (!failing)
    failing = (int*)mmap(nullptr, sizeof(int), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  *failing = 0;
  int fd[2];
  if (pipe(fd) != 0)
    _exit(3);
  pid_t pid = fork();
  if (pid < 0)
    _exit(3);
  if (pid == 0) {
    close(fd[0]);
    auto const seed = (uint64_t)p.c(0);
    std::unique_ptr<Objects> past_sh, past_own;
    std::unique_ptr<const Objects> sh;
    std::unique_ptr<Objects> own;
    srand(1);
    srand48(1);
    world.now = 0;
    world.on = true;
    uint64_t failed = 0, pasts = 0;
    auto before = [&](int64_t at) {
      if (!other)
        return;
      for (auto const& s : p.steps)
        if (s.op == "differ" && s.at(2) == at)
          enter((int)((uint64_t)s.at(0) % kWhats), (uint64_t)s.at(1));
        else if (s.op == "past" && s.at(2) == at) {
          auto kind = (unsigned)((uint64_t)s.at(0) % kOps);
          if (!past_sh) {
            past_sh = std::make_unique<Objects>(seed + 77, "/simfs/elseshared");
            past_own = std::make_unique<Objects>(seed + 78, "/simfs/else");
          }
          Out o;
          {
            sim::mem::Scope arm(s.at(3));
            *failing = s.at(3) > 0;
            try {
              perform(kind, s.at(4) && sh ? *sh : *past_sh, *past_own, Rng((uint64_t)s.at(1)), o);
            } catch (const std::exception&) {
            }
            *failing = 0;
            failed += sim::mem::failures();
          }
          pasts++;
        }
    };
    std::string all;
    before(0);
    auto paint = [&] {
      if (world.stack >= 0)
        paint_stack(world.stack);
      if (world.flags)
        feraiseexcept(world.flags);
      errno = world.err;
    };
    paint();
    sh = std::make_unique<Objects>(seed, "/simfs/shared");
    own = std::make_unique<Objects>(seed + 1, "/simfs/own0");
    int64_t i = 0;
    for (auto const& s : p.steps)
      if (s.op == "op") {
        if (i > 0)
          before(i);
        i++;
        Out o;
        paint();
        try {
          perform((unsigned)((uint64_t)s.at(0) % kOps), *sh, *own, Rng((uint64_t)s.at(1)), o);
        } catch (const std::exception& e) {
          o.s("exception");
          o.s(e.what());
        }
        uint32_t n = (uint32_t)o.text.size();
        all.append((char*)&n, 4);
        all += o.text;
      }
    world.on = false;
    uint64_t tail[6] = { failed, pasts, world.asked[0], world.asked[1], world.asked[2], 0 };
    all.append((char*)tail, sizeof tail);
    for (size_t at = 0; at < all.size();) {
      auto n = write(fd[1], all.data() + at, all.size() - at);
      if (n <= 0)
        _exit(3);
      at += (size_t)n;
    }
    _exit(0);
  }
  close(fd[1]);
  std::string all;
  char buf[4096];
  for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;)
    all.append(buf, (size_t)n);
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || all.size() < 48)
    return t;
  uint64_t tail[6];
  memcpy(tail, &all[all.size() - 48], 48);
  all.resize(all.size() - 48);
  t.failed = tail[0];
  t.pasts = tail[1];
  for (int i = 0; i < 3; i++)
    t.asked[i] = tail[2 + i];
  for (size_t at = 0; at + 4 <= all.size();) {
    uint32_t n;
    memcpy(&n, &all[at], 4);
    t.answers.push_back(all.substr(at + 4, n));
    at += 4 + n;
  }
  t.finished = true;
  return t;
}

void
execute(const Plan& p, Run& r)
{
  sim::fs::reset(&r);
  files();
  std::vector<const Step*> ops;
  std::vector<int64_t> since[kWhats];
  uint64_t kinds = 0;
  for (auto const& s : p.steps)
    if (s.op == "op")
      ops.push_back(&s);
  bool any = false;
  for (auto const& s : p.steps)
    if (s.op == "differ" && s.at(2) < (int64_t)std::max<size_t>(1, ops.size())) {
      r.fault(kWhat[(uint64_t)s.at(0) % kWhats]);
      since[(uint64_t)s.at(0) % kWhats].push_back(s.at(2));
      kinds = sim::hmix(kinds, (uint64_t)s.at(0) % kWhats);
      any = true;
    }
  auto a = live(p, false);
  if (!a.finished) {
    r.log("the program does not finish");
    r.probe("unfinished");
    return;
  }
  auto b = live(p, true);
  if (!b.finished && *failing) {
    // it may give up when memory runs out: that is not what is asked here
    auto q = p;
    for (auto& s : q.steps)
      if (s.op == "past" && s.a.size() > 3)
        s.a[3] = 0;
    r.probe("gives-up-without-memory");
    b = live(q, true);
  }
  r.probe("clock-read", a.asked[0] + b.asked[0]);
  r.probe("entropy-read", a.asked[1] + b.asked[1]);
  r.probe("environment-read", a.asked[2] + b.asked[2]);
  r.fault("earlier-operation", b.pasts);
  r.fault("earlier-allocation-failure", b.failed);
  if (any || b.pasts)
    r.nontrivial();
  for (size_t i = 0; i < ops.size(); i++) {
    auto k = (uint64_t)ops[i]->at(0) % kOps;
    r.events++;
    r.log("%s: %016llx", kNames[k], (unsigned long long)sim::hstr(a.answers[i]));
    uint64_t h = sim::hmix(k, kinds);
    for (auto const& s : p.steps)
      if (s.op == "past" && s.at(2) <= (int64_t)i)
        h = sim::hmix(h, (uint64_t)s.at(0) % kOps * 4 + (s.at(3) > 0) * 2 + (s.at(4) != 0));
    r.state(h);
  }
  if (!b.finished)
    r.fail("dies", "a program that finishes elsewhere does not finish in the world of this plan");
  for (size_t i = 0; i < ops.size(); i++) {
    auto k = (uint64_t)ops[i]->at(0) % kOps;
    if (a.answers[i] != b.answers[i])
      r.fail("depends", "operation %zu (%s) answers\n  %.700s\nin the world of this plan but elsewhere\n  %.700s", i, kNames[k], b.answers[i].c_str(), a.answers[i].c_str());
  }
}
} // namespace

namespace sim {
const CheckDef&
check()
{
  static CheckDef d = [] {
    CheckDef c;
    c.property = "C19";
    c.rule = "Each run performs a seeded program of operations over all parts of the library in two fresh processes. The "
             "second one is a different world: blocks of memory lie elsewhere and hold other bytes, the stack, errno and the "
             "floating-point flags are dirty, the global locale, clock, entropy and environment are different, files to be "
             "replaced hold junk, descriptors are taken, and other operations on other objects, some cut short by a failing "
             "allocation, came before. Every answer, file and archive has to be the same bit for bit. Non-trivial: at least "
             "one difference.";
    c.state_measure = "distinct (operation, differences, operations that came before)";
    c.real = { "all of bwsl/**.hpp", "boost serialization", "real processes", "libstdc++" };
    c.stub = { "memory placement and contents", "clock", "entropy", "environment", "file system" };
    c.assumptions = { "rounding mode and floating-point environment control are the caller's business and stay the default",
                      "streams given by the caller have the classic locale" };
    c.must_fire = { "memory", "stack", "errno", "locale", "clock", "entropy", "environment", "floating-flags", "stale-file", "open-files", "earlier-operation", "earlier-allocation-failure" };
    c.quick_runs = 24000;
    c.thorough_runs = 200000;
    c.generate = generate;
    c.execute = execute;
    return c;
  }();
  return d;
}
} // namespace sim
