// C11: threads using the library do not disturb each other.
// SAN: thread
// ENGINE: tsched
// FLAGS: -D_GLIBCXX_EXTERN_TEMPLATE=0 -Wno-tsan
// LDFLAGS: -Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp,--wrap=memchr,--wrap=strlen,--wrap=strcmp,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release,--wrap=__cxa_guard_abort,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_trylock,--wrap=pthread_mutex_unlock,--wrap=pthread_rwlock_rdlock,--wrap=pthread_rwlock_wrlock,--wrap=pthread_rwlock_unlock,--wrap=pthread_once
//
// Callers run programs of their own over shared constant objects and objects of
// their own. First every caller runs alone in a fresh process; then all of them
// run in one process, several callers per thread, under a seeded schedule. Each
// operation of each caller has to have the result it had alone, and no two
// unordered accesses may conflict.
#include "../sim/tsched.hpp"
#include "workload.hpp"
#include <sys/wait.h>
#include <unistd.h>

namespace {
constexpr unsigned kMaxCallers = 5, kMaxThreads = 4;

// ---------------------------------------------------------------- plan
// cfg: threads, callers, seed of the shared objects, first thread, thread of each caller...
// step op <caller> <operation> <seed>
// step pre <class> <n> <to> <stall>
Plan
generate(Rng& g, bool thorough)
{
  Plan p;
  int T = g.chance(0.12) ? 1 : 2 + (int)g.below(g.chance(0.7) ? 1 : kMaxThreads - 1);
  int K = std::min<int>((int)kMaxCallers, T + (g.chance(0.35) ? 1 + (int)g.below(2) : 0));
  if (T == 1)
    K = 2 + (int)g.below(2);
  p.cfg = { T, K, (int64_t)(g.next() >> 2), (int64_t)g.below(8) };
  for (int c = 0; c < K; c++)
    p.cfg.push_back(c < T ? c : (int64_t)g.below(8));
  // a few kinds of operation per run, so that the same code runs in several
  // callers at once
  std::vector<int64_t> kinds;
  for (int i = 0, n = 1 + (int)g.below(g.chance(0.5) ? 3 : 9); i < n; i++)
    kinds.push_back((int64_t)g.below(kOps));
  int ops = K * (1 + (int)g.below(thorough ? 8 : 4));
  bool same = g.chance(0.25); // everybody does the same
  std::vector<Step> prog;
  for (int i = 0; i < ops; i++) {
    auto k = kinds[g.below(kinds.size())];
    auto s = (int64_t)(g.next() >> 2);
    if (same) {
      for (int c = 0; c < K; c++)
        p.add("op", { c, k, s });
      i += K - 1;
    } else
      p.add("op", { (int64_t)g.below((uint64_t)K), k, s });
  }
  if (T > 1) {
    int n = (int)g.below(g.chance(0.4) ? 40 : 10);
    for (int i = 0; i < n; i++) {
      int cls = g.chance(0.45) ? sim::tsched::kGlobal : g.chance(0.4) ? sim::tsched::kAny : g.chance(0.6) ? sim::tsched::kSync : sim::tsched::kMark;
      double top = cls == sim::tsched::kAny ? 14 : cls == sim::tsched::kGlobal ? 9 : cls == sim::tsched::kSync ? 5 : 3;
      auto at = (int64_t)std::pow(2.0, g.unit() * top);
      p.add("pre", { cls, at, (int64_t)g.below(8), g.chance(0.08) });
    }
  }
  return p;
}

struct Caller
{
  std::vector<Step> prog;
  std::vector<std::string> alone, together;
};

/// Runs a caller alone in a fresh process; false: it does not get to its end.
bool
alone(const Plan& p, unsigned c, Caller& me)
{
  int fd[2];
  if (pipe(fd) != 0)
    _exit(3);
  pid_t pid = fork();
  if (pid < 0)
    _exit(3);
  if (pid == 0) {
    close(fd[0]);
    const Objects sh((uint64_t)p.c(2), "/simfs/shared");
    Objects own((uint64_t)p.c(2) + c + 1, "/simfs/own" + std::to_string(c));
    std::string all;
    for (auto const& s : me.prog) {
      std::string r;
      one(s, sh, own, r);
      uint32_t n = (uint32_t)r.size();
      all.append((char*)&n, 4);
      all += r;
    }
    for (size_t at = 0; at < all.size();) {
      auto n = write(fd[1], all.data() + at, all.size() - at);
      if (n <= 0)
        _exit(3);
      at += (size_t)n;
    }
    _exit(0);
  }
  close(fd[1]);
  std::string all;
  char buf[4096];
  for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;)
    all.append(buf, (size_t)n);
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
    return false;
  for (size_t at = 0; at + 4 <= all.size();) {
    uint32_t n;
    memcpy(&n, &all[at], 4);
    me.alone.push_back(all.substr(at + 4, n));
    at += 4 + n;
  }
  return me.alone.size() == me.prog.size();
}

void
execute(const Plan& p, Run& r)
{
  unsigned T = (unsigned)std::max<int64_t>(1, std::min<int64_t>(p.c(0, 1), kMaxThreads));
  unsigned K = (unsigned)std::max<int64_t>(1, std::min<int64_t>(p.c(1, 1), kMaxCallers));
  sim::fs::reset(&r);
  files();
  std::vector<Caller> callers(K);
  struct Item
  {
    unsigned caller;
    size_t index;
  };
  std::vector<std::vector<Item>> threads(T);
  std::vector<sim::tsched::Preemption> pre;
  for (auto const& s : p.steps) {
    if (s.op == "op") {
      unsigned c = (unsigned)((uint64_t)s.at(0) % K);
      threads[(uint64_t)p.c(4 + c) % T].push_back({ c, callers[c].prog.size() });
      callers[c].prog.push_back(s);
    } else
      pre.push_back({ (int)((uint64_t)s.at(0) % sim::tsched::kClasses),
                      (uint64_t)std::max<int64_t>(1, s.at(1)),
                      (unsigned)((uint64_t)s.at(2) % kMaxThreads),
                      s.at(3) != 0 });
  }
  for (unsigned c = 0; c < K; c++)
    if (!alone(p, c, callers[c])) {
      r.log("caller %u does not finish alone", c);
      r.probe("unfinished-alone");
      return;
    }
  // now all of them
  const Objects sh((uint64_t)p.c(2), "/simfs/shared");
  std::vector<std::unique_ptr<Objects>> own;
  for (unsigned c = 0; c < K; c++) {
    own.push_back(std::make_unique<Objects>((uint64_t)p.c(2) + c + 1, "/simfs/own" + std::to_string(c)));
    callers[c].together.resize(callers[c].prog.size());
  }
  std::vector<std::function<void()>> bodies;
  for (unsigned t = 0; t < T; t++)
    bodies.push_back([&, t] {
      for (auto const& it : threads[t]) {
        auto& c = callers[it.caller];
        auto const& s = c.prog[it.index];
        sim::tsched::mark(kNames[(uint64_t)s.at(1) % kOps], it.caller);
        one(s, sh, *own[it.caller], c.together[it.index]);
      }
      sim::tsched::mark("done", 99);
    });
  auto rep = sim::tsched::run(bodies, pre, (unsigned)((uint64_t)p.c(3) % kMaxThreads));
  for (unsigned c = 0; c < K; c++)
    for (size_t i = 0; i < callers[c].prog.size(); i++) {
      r.log("caller %u %s: %016llx", c, kNames[(uint64_t)callers[c].prog[i].at(1) % kOps], (unsigned long long)sim::hstr(callers[c].together[i]));
      r.events++;
    }
  r.mix(rep.schedule);
  r.log("events %llu switches %llu", (unsigned long long)rep.events, (unsigned long long)rep.switches);
  r.fault("preemption", rep.switches);
  r.fault("stalled-thread", rep.stalls);
  r.probe("memory-events", rep.events);
  r.probe("shared-or-static-events", rep.global);
  r.probe("sync-events", rep.sync);
  r.state(rep.schedule);
  if (T > 1)
    r.probe("several-threads");
  if (K > T)
    r.probe("several-callers-in-a-thread");
  if (rep.switches > 0 || K > T)
    r.nontrivial();
  if (!rep.cls.empty())
    r.fail(rep.cls.c_str(), "%s", rep.msg.c_str());
  for (unsigned c = 0; c < K; c++)
    for (size_t i = 0; i < callers[c].prog.size(); i++)
      if (callers[c].alone[i] != callers[c].together[i])
        r.fail("disturbed", "operation %zu (%s) of caller %u answers\n  %.700s\nbut alone\n  %.700s", i,
               kNames[(uint64_t)callers[c].prog[i].at(1) % kOps], c, callers[c].together[i].c_str(), callers[c].alone[i].c_str());
}
} // namespace

namespace sim {
const CheckDef&
check()
{
  static CheckDef d = [] {
    CheckDef c;
    c.property = "C11";
    c.rule = "Each run lets two to five callers perform seeded programs over shared constant objects and objects of their "
             "own, mapped to one to four threads. A seeded schedule hands over between the threads at memory accesses, "
             "atomics, locks, static initialisations and operation boundaries. Every operation's result is compared with "
             "the one its caller gets alone in a fresh process; conflicting accesses not ordered by happens-before are "
             "violations. Non-trivial: at least one handover, or several callers in one thread.";
    c.state_measure = "distinct sequences of handovers (thread, caller, position)";
    c.real = { "all of bwsl/**.hpp", "boost serialization", "real threads", "libstdc++ string and iostream templates (instrumented)" };
    c.stub = { "thread scheduler", "mutex / rwlock / once / static guards", "file system" };
    c.assumptions = { "interleavings are sequentially consistent; weak-memory effects show as races",
                      "accesses inside shared libraries are atomic and invisible" };
    c.must_fire = { "preemption", "stalled-thread" };
    c.quick_runs = 4000;
    c.thorough_runs = 100000;
    c.generate = generate;
    c.execute = execute;
    return c;
  }();
  return d;
}
} // namespace sim
