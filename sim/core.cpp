#include "core.hpp"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <exception>
#include <fcntl.h>
#include <map>
#include <set>
#include <sstream>
#include <fstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>

extern "C" const char*
__asan_default_options()
{
  return "detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1:"
         "handle_abort=0:handle_segv=0:handle_sigill=0:handle_sigfpe=0:handle_sigbus=0:"
         "detect_stack_use_after_return=1:max_malloc_fill_size=4096:print_summary=1";
}

namespace sim {

constexpr int kMaxCounters = 192;
constexpr uint64_t kSetSize = 1u << 19;

struct Counter
{
  char name[56];
  uint64_t n;
};

struct Shared
{
  uint64_t hash;
  uint64_t events;
  int verdict; // 0 running, 1 ok, 2 violation
  int nontrivial;
  char cls[160];
  char msg[4096];
  int ncounters;
  Counter counters[kMaxCounters];
  uint64_t nset;
  uint64_t set[kSetSize];
};

static Shared*
new_shared()
{
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    _exit(2);
  }
  return (Shared*)p;
}

static void
bump(Shared* sh, char tag, const char* name, uint64_t n)
{
  if (!sh)
    return;
  char key[56];
  snprintf(key, sizeof key, "%c%s", tag, name);
  for (int i = 0; i < sh->ncounters; i++)
    if (!strcmp(sh->counters[i].name, key)) {
      sh->counters[i].n += n;
      return;
    }
  if (sh->ncounters < kMaxCounters) {
    strcpy(sh->counters[sh->ncounters].name, key);
    sh->counters[sh->ncounters].n = n;
    sh->ncounters++;
  }
}

static bool
set_insert(Shared* sh, uint64_t h)
{
  if (h == 0)
    h = 1;
  uint64_t i = h % kSetSize;
  for (int k = 0; k < 64; k++) {
    if (sh->set[i] == h)
      return false;
    if (sh->set[i] == 0) {
      if (sh->nset > kSetSize * 3 / 4)
        return false;
      sh->set[i] = h;
      sh->nset++;
      return true;
    }
    i = (i + 1) % kSetSize;
  }
  return false;
}

void
Run::mix(uint64_t v)
{
  events++;
  if (sh) {
    sh->hash = hmix(sh->hash, v);
    sh->events = events;
  }
}
void
Run::mixs(const std::string& s)
{
  mix(hstr(s));
}
void
Run::log(const char* fmt, ...)
{
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  mix(hstr(buf));
  if (verbose) {
    fputs(buf, stdout);
    fputc('\n', stdout);
    fflush(stdout);
  }
}
void
Run::fail(const char* cls, const char* fmt, ...)
{
  char buf[3000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  throw Violation{ cls, buf };
}
void
Run::fault(const char* kind, uint64_t n)
{
  if (n)
    bump(sh, 'F', kind, n);
}
void
Run::probe(const char* name, uint64_t n)
{
  if (n)
    bump(sh, 'P', name, n);
}
void
Run::state(uint64_t h)
{
  if (sh)
    set_insert(sh, h);
}
void
Run::nontrivial()
{
  if (sh)
    sh->nontrivial = 1;
}
uint64_t
Run::hash() const
{
  return sh ? sh->hash : 0;
}

// ---------------------------------------------------------------- plan text
static std::string
plan_text(const Plan& p)
{
  std::string o = "cfg";
  for (auto v : p.cfg)
    o += " " + std::to_string(v);
  o += "\n";
  for (auto& s : p.steps) {
    o += "step " + s.op;
    for (auto v : s.a)
      o += " " + std::to_string(v);
    o += "\n";
  }
  return o;
}

static bool
plan_parse(const std::string& text, Plan& p, std::map<std::string, std::string>& hdr)
{
  std::istringstream in(text);
  std::string line;
  bool have = false;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#')
      continue;
    std::istringstream ls(line);
    std::string w;
    ls >> w;
    if (w == "cfg") {
      int64_t v;
      while (ls >> v)
        p.cfg.push_back(v);
      have = true;
    } else if (w == "step") {
      Step s;
      ls >> s.op;
      int64_t v;
      while (ls >> v)
        s.a.push_back(v);
      p.steps.push_back(std::move(s));
    } else {
      std::string rest;
      std::getline(ls, rest);
      if (!rest.empty() && rest[0] == ' ')
        rest.erase(0, 1);
      hdr[w] = rest;
    }
  }
  return have;
}

static uint64_t
run_seed(uint64_t seed, uint64_t idx)
{
  uint64_t x = seed * 0x9E3779B97F4A7C15ULL + 0x1234567;
  uint64_t a = splitmix(x);
  x = a ^ (idx * 0xD1B54A32D192ED03ULL);
  return splitmix(x);
}

static Plan
make_plan(uint64_t seed, uint64_t idx, bool thorough)
{
  Rng rng(run_seed(seed, idx));
  return check().generate(rng, thorough);
}

// ---------------------------------------------------------------- isolated execution
struct Outcome
{
  bool violation = false;
  std::string cls, msg;
  uint64_t hash = 0, events = 0;
  bool nontrivial = false;
};

[[noreturn]] static void
child_main(const Plan& p, Shared* sh, bool verbose)
{
  if (!verbose) {
    int n = open("/dev/null", O_RDWR);
    dup2(n, 2);
  }
  struct rlimit nocore = { 0, 0 };
  setrlimit(RLIMIT_CORE, &nocore);
  struct itimerval it = {};
  it.it_value.tv_sec = 20; // CPU seconds: independent of the load of the machine
  setitimer(ITIMER_PROF, &it, nullptr);
  it.it_value.tv_sec = 300;
  setitimer(ITIMER_REAL, &it, nullptr);
  Run r;
  r.sh = sh;
  r.verbose = verbose;
  try {
    check().execute(p, r);
    sh->verdict = 1;
  } catch (const Violation& v) {
    snprintf(sh->cls, sizeof sh->cls, "%s", v.cls.c_str());
    snprintf(sh->msg, sizeof sh->msg, "%s", v.msg.c_str());
    sh->verdict = 2;
  } catch (const std::exception& e) {
    snprintf(sh->cls, sizeof sh->cls, "unexpected-exception");
    snprintf(sh->msg, sizeof sh->msg, "an exception escaped: %s (%s)", typeid(e).name(), e.what());
    sh->verdict = 2;
  } catch (...) {
    snprintf(sh->cls, sizeof sh->cls, "unexpected-exception");
    snprintf(sh->msg, sizeof sh->msg, "an unknown exception escaped");
    sh->verdict = 2;
  }
  if (verbose)
    fflush(stdout);
  _exit(0);
}

static Outcome
execute_isolated(const Plan& p, Shared* sh, bool verbose = false)
{
  sh->hash = 0x5151515151ULL;
  sh->events = 0;
  sh->verdict = 0;
  sh->nontrivial = 0;
  sh->cls[0] = sh->msg[0] = 0;
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    _exit(2);
  }
  if (pid == 0)
    child_main(p, sh, verbose);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  Outcome o;
  o.hash = sh->hash;
  o.events = sh->events;
  o.nontrivial = sh->nontrivial;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->verdict != 0) {
    if (sh->verdict == 2) {
      o.violation = true;
      o.cls = sh->cls;
      o.msg = sh->msg;
    }
    return o;
  }
  o.violation = true;
  if (WIFSIGNALED(st)) {
    int s = WTERMSIG(st);
    if (s == SIGPROF || s == SIGALRM) {
      o.cls = "hang";
      o.msg = "the run did not finish within 20 CPU seconds";
      o.hash = 0;
    } else {
      o.cls = std::string("crash:signal-") + std::to_string(s);
      o.msg = std::string("the code under test died of signal ") + strsignal(s);
    }
  } else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
    o.cls = "crash:memory-error";
    o.msg = "AddressSanitizer reported a memory error in the code under test";
  } else {
    o.cls = "crash:exit-" + std::to_string(WEXITSTATUS(st));
    o.msg = "the code under test ended the process";
  }
  return o;
}

// ---------------------------------------------------------------- minimisation
static double
now_s()
{
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

static Plan
minimise(Plan p, const std::string& cls, Shared* sh, uint64_t& tried)
{
  const double deadline = now_s() + (cls == "hang" ? 60 : 90);
  auto still = [&](const Plan& q) {
    tried++;
    auto o = execute_isolated(q, sh);
    return o.violation && o.cls == cls;
  };
  bool progress = true;
  int rounds = 0;
  while (progress && rounds++ < 4 && now_s() < deadline) {
    progress = false;
    // drop chunks of steps
    for (size_t chunk = std::max<size_t>(1, p.steps.size() / 2); chunk >= 1; chunk /= 2) {
      for (size_t i = 0; i < p.steps.size() && now_s() < deadline;) {
        Plan q = p;
        auto e = std::min(p.steps.size(), i + chunk);
        q.steps.erase(q.steps.begin() + i, q.steps.begin() + e);
        if (still(q)) {
          p = std::move(q);
          progress = true;
        } else {
          i += chunk;
        }
      }
      if (chunk == 1)
        break;
    }
    // simplify arguments
    auto shrink_value = [&](auto get) {
      for (int k = 0; k < 8 && now_s() < deadline; k++) {
        int64_t v = get(p);
        std::vector<int64_t> cand;
        bool dbl = v > (1LL << 52) || v < -(1LL << 52);
        if (dbl) {
          if (v == dbits(1.0))
            break;
          cand = { dbits(1.0), dbits(2.0), 0 };
          double d = bitsd(v);
          if (d == d && d < 1e15 && d > -1e15 && (double)(long)d != d)
            cand.push_back(dbits((double)(long)d));
        } else if (v != 0) {
          cand = { 0, 1, v / 2, v > 0 ? v - 1 : v + 1 };
        }
        bool ok = false;
        for (auto c : cand) {
          if (c == v || now_s() > deadline)
            continue;
          if (!dbl && (c < 0 ? -c : c) >= (v < 0 ? -v : v))
            continue;
          Plan q = p;
          get(q) = c;
          if (still(q)) {
            p = std::move(q);
            ok = progress = true;
            break;
          }
        }
        if (!ok)
          break;
      }
    };
    for (size_t i = 0; i < p.steps.size() && now_s() < deadline; i++)
      for (size_t j = 0; j < p.steps[i].a.size() && now_s() < deadline; j++)
        shrink_value([i, j](Plan& q) -> int64_t& { return q.steps[i].a[j]; });
    for (size_t j = 0; j < p.cfg.size() && now_s() < deadline; j++)
      shrink_value([j](Plan& q) -> int64_t& { return q.cfg[j]; });
  }
  return p;
}

// ---------------------------------------------------------------- driver
static std::string
jesc(const std::string& s)
{
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += (char)c;
    } else if (c == '\n')
      o += "\\n";
    else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += (char)c;
  }
  return o + "\"";
}
static std::string
jlist(const std::vector<std::string>& v)
{
  std::string o = "[";
  for (size_t i = 0; i < v.size(); i++)
    o += (i ? ", " : "") + jesc(v[i]);
  return o + "]";
}

struct Control
{ // shared by all workers
  volatile uint64_t min_violation;
  volatile int stop;
};

struct WorkerOut
{
  uint64_t runs, events, nontrivial_distinct, nsample;
  uint64_t sample_idx[256], sample_hash[256];
  bool capped;
};

static int
explore(bool thorough, uint64_t seed, int workers, const std::string& evidence, const std::string& replays, const std::string& self)
{
  const auto& def = check();
  const double t0 = now_s();
  uint64_t want = thorough ? def.thorough_runs : def.quick_runs;
  if (const char* e = getenv("SIM_RUNS"))
    want = strtoull(e, nullptr, 10);
  double cap = thorough ? def.thorough_cap_s : def.quick_cap_s;
  if (const char* e = getenv("SIM_CAP_S"))
    cap = atof(e);
  printf("%s: seed %llu, up to %llu runs (%s)\n", def.property, (unsigned long long)seed, (unsigned long long)want, thorough ? "thorough" : "quick");
  fflush(stdout);
  auto* ctl = (Control*)mmap(nullptr, sizeof(Control), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  ctl->min_violation = UINT64_MAX;
  std::vector<Shared*> sh;
  std::vector<Shared*> runset; // hashes of distinct non-trivial runs
  auto* wo = (WorkerOut*)mmap(nullptr, sizeof(WorkerOut) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<pid_t> pids;
  const uint64_t sample_step = std::max<uint64_t>(1, want / 200);
  for (int w = 0; w < workers; w++) {
    sh.push_back(new_shared());
    runset.push_back(new_shared());
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      auto& out = wo[w];
      for (uint64_t i = w; i < want; i += workers) {
        if (i > ctl->min_violation)
          break;
        if (now_s() - t0 > cap) {
          out.capped = true;
          break;
        }
        Plan p = make_plan(seed, i, thorough);
        auto o = execute_isolated(p, sh[w]);
        out.runs++;
        out.events += o.events;
        if (o.nontrivial)
          set_insert(runset[w], o.hash);
        if (i % sample_step == 0 && out.nsample < 256) {
          out.sample_idx[out.nsample] = i;
          out.sample_hash[out.nsample++] = o.hash;
        }
        if (o.violation) {
          // keep the lowest run number
          uint64_t cur = ctl->min_violation;
          while (i < cur && !__atomic_compare_exchange_n((uint64_t*)&ctl->min_violation, &cur, i, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {
          }
          break;
        }
      }
      _exit(0);
    }
    pids.push_back(pid);
  }
  bool worker_error = false;
  for (auto pid : pids) {
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
      worker_error = true;
  }
  if (worker_error) {
    fprintf(stderr, "internal error: a simulation worker died\n");
    return 2;
  }
  const double t_explore = now_s() - t0;

  uint64_t runs = 0, events = 0;
  bool capped = false;
  std::map<std::string, uint64_t> faults, probes;
  std::set<uint64_t> states, distinct;
  for (int w = 0; w < workers; w++) {
    runs += wo[w].runs;
    events += wo[w].events;
    capped = capped || wo[w].capped;
    for (int c = 0; c < sh[w]->ncounters; c++) {
      auto& k = sh[w]->counters[c];
      (k.name[0] == 'F' ? faults : probes)[k.name + 1] += k.n;
    }
    for (uint64_t i = 0; i < kSetSize; i++) {
      if (sh[w]->set[i])
        states.insert(sh[w]->set[i]);
      if (runset[w]->set[i])
        distinct.insert(runset[w]->set[i]);
    }
  }

  Shared* mine = new_shared();
  int rc = 0;
  std::string viol_cls;
  uint64_t nviol = 0, tried = 0;
  if (ctl->min_violation != UINT64_MAX) {
    const uint64_t idx = ctl->min_violation;
    Plan p = make_plan(seed, idx, thorough);
    // On sound code every run repeats exactly. Broken code may be
    // nondeterministic itself (uninitialised reads): then a class that occurs
    // again within a few executions is reported, and the replay retries as well.
    std::vector<Outcome> again;
    for (int k = 0; k < 2; k++)
      again.push_back(execute_isolated(p, mine));
    bool exact = again[0].violation && again[1].violation && again[0].cls == again[1].cls;
    auto a = again[0];
    if (!exact) {
      for (int k = 0; k < 14; k++)
        again.push_back(execute_isolated(p, mine));
      std::map<std::string, int> count;
      for (auto const& o : again)
        if (o.violation)
          count[o.cls]++;
      int best = 0;
      for (auto const& o : again)
        if (o.violation && count[o.cls] > best) {
          best = count[o.cls];
          a = o;
        }
      if (best == 0) {
        fprintf(stderr, "internal error: run %llu did not repeat\n", (unsigned long long)idx);
        return 2;
      }
    } else
      exact = again[0].hash == again[1].hash;
    Plan q = minimise(p, a.cls, mine, tried);
    auto m = execute_isolated(q, mine);
    if (!m.violation || m.cls != a.cls) { // only if it is nondeterministic
      q = p;
      m = a;
      exact = false;
    }
    std::string path = replays + "/" + def.property + "-" + std::to_string(seed) + "-" + std::to_string(idx) + ".replay";
    {
      std::ofstream f(path);
      char hb[32];
      // the code under test may itself be nondeterministic (uninitialised reads)
      if (exact)
        snprintf(hb, sizeof hb, "%016llx", (unsigned long long)m.hash);
      else
        snprintf(hb, sizeof hb, "any");
      std::string msg = m.msg;
      std::replace(msg.begin(), msg.end(), '\n', ' ');
      f << "# replay with: ./check.sh " << def.property << " --replay " << path << "\n";
      f << "property " << def.property << "\nclass " << m.cls << "\nmessage " << msg << "\nhash " << hb << "\nseed " << seed << " run " << idx << " (minimised from " << p.steps.size() << " to " << q.steps.size() << " steps in " << tried << " executions)\n";
      f << plan_text(q);
    }
    std::string cmd = "'" + self + "' --replay '" + path + "' --expect";
    fflush(stdout);
    int st = system((cmd + " > /dev/null 2>&1").c_str());
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 1)) {
      fprintf(stderr, "internal error: replay in a fresh process did not reproduce (status %d): %s\n", st, path.c_str());
      return 2;
    }
    printf("run %llu: %s: %s\n", (unsigned long long)idx, m.cls.c_str(), m.msg.c_str());
    printf("minimised from %zu to %zu steps (%llu executions):\n%s", p.steps.size(), q.steps.size(), (unsigned long long)tried, plan_text(q).c_str());
    printf("VIOLATION property=%s replay=%s\n", def.property, path.c_str());
    viol_cls = m.cls;
    nviol = 1;
    rc = 1;
  }

  // determinism: re-execute a sample in other processes and compare event-log hashes
  uint64_t resampled = 0, mismatched = 0;
  if (rc == 0) {
    for (int w = 0; w < workers; w++)
      for (uint64_t k = 0; k < wo[w].nsample; k++) {
        Plan p = make_plan(seed, wo[w].sample_idx[k], thorough);
        auto o = execute_isolated(p, mine);
        resampled++;
        if (o.hash != wo[w].sample_hash[k])
          mismatched++;
      }
    if (mismatched) {
      fprintf(stderr, "internal error: %llu of %llu re-executed runs diverged\n", (unsigned long long)mismatched, (unsigned long long)resampled);
      rc = 2;
    }
  }

  const double wall = now_s() - t0;
  std::vector<std::string> samples;
  for (uint64_t i = 0; i < 3; i++) {
    auto t = plan_text(make_plan(seed, i * 7 + 1, thorough));
    if (t.size() > 1500)
      t = t.substr(0, 1500) + "...";
    samples.push_back("run " + std::to_string(i * 7 + 1) + ":\n" + t);
  }
  std::vector<std::string> silent;
  for (auto& n : def.must_fire)
    if (!faults.count(n) && !probes.count(n))
      silent.push_back(n);
  if (!evidence.empty()) {
    std::ofstream f(evidence + ".tmp");
    auto map = [](const std::map<std::string, uint64_t>& m) {
      std::string o = "{";
      bool first = true;
      for (auto& kv : m) {
        o += (first ? "" : ", ") + jesc(kv.first) + ": " + std::to_string(kv.second);
        first = false;
      }
      return o + "}";
    };
    f << "{\n \"property\": " << jesc(def.property) << ",\n \"tier\": \"" << (thorough ? "thorough" : "quick") << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
    f << "  \"evaluations\": " << runs << ",\n  \"distinct_nontrivial\": " << distinct.size() << ",\n  \"rule\": " << jesc(def.rule) << ",\n  \"samples\": " << jlist(samples) << ",\n";
    f << "  \"simulated_events\": " << events << ",\n";
    f << "  \"runs_per_hour\": " << (uint64_t)(runs / std::max(0.001, t_explore) * 3600) << ",\n  \"seeds\": \"one derived seed per run\",\n";
    f << "  \"simulated_time\": \"the system has no clock; progress is counted in simulated events\",\n";
    f << "  \"faults_fired\": " << map(faults) << ",\n  \"probes_hit\": " << map(probes) << ",\n";
    f << "  \"probes_never_hit\": " << jlist(silent) << ",\n";
    f << "  \"distinct_states\": " << states.size() << ",\n  \"state_measure\": " << jesc(def.state_measure) << ",\n";
    f << "  \"determinism_reexecuted\": " << resampled << ",\n  \"determinism_mismatches\": " << mismatched << ",\n";
    f << "  \"stopped_by_time_cap\": " << (capped ? "true" : "false") << ",\n";
    f << "  \"components_real\": " << jlist(def.real) << ",\n  \"components_stub\": " << jlist(def.stub) << "\n },\n";
    f << " \"assumptions\": " << jlist(def.assumptions) << ",\n \"wall_s\": " << wall << ",\n \"violations\": " << nviol << "\n}\n";
    f.close();
    rename((evidence + ".tmp").c_str(), evidence.c_str());
  }
  printf("%s: %llu runs, %zu distinct non-trivial, %zu states, %.1f s%s\n", def.property, (unsigned long long)runs, distinct.size(), states.size(), wall, rc == 0 ? ", no violation" : "");
  if (!silent.empty()) {
    printf("note: never fired:");
    for (auto& s : silent)
      printf(" %s", s.c_str());
    printf("\n");
  }
  return rc;
}

} // namespace sim

int
main(int argc, char** argv)
{
  using namespace sim;
  // Same addresses in every process where the kernel allows it.
  if (!getenv("SIM_NO_REEXEC")) {
    setenv("SIM_NO_REEXEC", "1", 1);
    if (personality(ADDR_NO_RANDOMIZE) != -1)
      execv("/proc/self/exe", argv);
  }
  char selfbuf[4096];
  ssize_t n = readlink("/proc/self/exe", selfbuf, sizeof selfbuf - 1);
  std::string self(selfbuf, n > 0 ? n : 0);
  std::string evidence, replays = ".", replay;
  bool thorough = false, expect = false;
  uint64_t seed = 1;
  int64_t one = -1, hashes = -1;
  int workers = 8;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--tier")
      thorough = val() == "thorough";
    else if (a == "--seed")
      seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--workers")
      workers = std::max(1, atoi(val().c_str()));
    else if (a == "--evidence")
      evidence = val();
    else if (a == "--replays")
      replays = val();
    else if (a == "--replay")
      replay = val();
    else if (a == "--expect")
      expect = true;
    else if (a == "--run")
      one = atoll(val().c_str());
    else if (a == "--hashes")
      hashes = atoll(val().c_str());
    else {
      fprintf(stderr, "unknown argument %s\n", a.c_str());
      return 2;
    }
  }
  if (!replay.empty()) {
    std::ifstream f(replay);
    std::stringstream ss;
    ss << f.rdbuf();
    Plan p;
    std::map<std::string, std::string> hdr;
    if (!plan_parse(ss.str(), p, hdr)) {
      fprintf(stderr, "cannot read %s\n", replay.c_str());
      return 2;
    }
    auto* rs = new_shared();
    auto o = execute_isolated(p, rs, true);
    for (int k = 0; k < 30 && hdr["hash"] == "any" && !(o.violation && o.cls == hdr["class"]); k++)
      o = execute_isolated(p, rs, true);
    if (!o.violation) {
      printf("no violation\n");
      return 0;
    }
    char hb[32];
    snprintf(hb, sizeof hb, "%016llx", (unsigned long long)o.hash);
    printf("%s: %s (hash %s)\n", o.cls.c_str(), o.msg.c_str(), hb);
    if (expect && (o.cls != hdr["class"] || (hdr["hash"] != hb && hdr["hash"] != "any"))) {
      printf("differs from the recorded %s %s\n", hdr["class"].c_str(), hdr["hash"].c_str());
      return 3;
    }
    printf("VIOLATION property=%s replay=%s\n", check().property, replay.c_str());
    return 1;
  }
  if (one >= 0) {
    Plan p = make_plan(seed, one, thorough);
    fputs(plan_text(p).c_str(), stdout);
    auto o = execute_isolated(p, new_shared(), true);
    printf("%s %s hash=%016llx events=%llu nontrivial=%d\n", o.violation ? o.cls.c_str() : "ok", o.msg.c_str(), (unsigned long long)o.hash, (unsigned long long)o.events, (int)o.nontrivial);
    return o.violation;
  }
  if (hashes >= 0) {
    auto* sh = new_shared();
    for (int64_t i = 0; i < hashes; i++) {
      auto o = execute_isolated(make_plan(seed, i, thorough), sh);
      printf("%lld %016llx %s\n", (long long)i, (unsigned long long)o.hash, o.cls.c_str());
    }
    return 0;
  }
  return explore(thorough, seed, workers, evidence, replays, self);
}
