#include "tsched.hpp"
#include "mem.hpp"
#include <unistd.h>
#include <cstdlib>
#include <cxxabi.h>
#include <dlfcn.h>
#include <link.h>
#include <pthread.h>
#include <semaphore.h>

// This file must not use anything from the standard library's templates while
// an event is handled: the linker may take their instrumented versions.
extern "C" int sim_paused;
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t*);

namespace sim::tsched {
constexpr unsigned kMaxThreads = 6;

struct Clock
{
  uint32_t c[kMaxThreads];
};
enum State
{
  kReady,
  kBlocked,
  kDone
};
struct Thread
{
  pthread_t th;
  sem_t go, leave;
  State state;
  bool stalled;
  const void* on; // what it waits for
  Clock vc;
  uintptr_t lo, hi; // own stack
  const char* label;
  unsigned who;
  const std::function<void()>* body;
};

static Thread g_t[kMaxThreads];
static unsigned g_n;
static int g_cur = -1;
static bool g_on, g_in, g_stuck;
static sem_t g_main;
static thread_local int t_me = -1;

// one queue per class; the next of each of them is armed
static const Preemption* g_pre[kClasses];
static size_t g_npre[kClasses], g_ipre[kClasses];
static uint64_t g_since[kClasses];
static uint64_t g_events, g_global, g_sync, g_switches, g_stalls, g_hash;

static char g_rcls[64], g_rmsg[1500];

// ---------------------------------------------------------------- images
struct Range
{
  uintptr_t lo, hi;
};
static Range g_foreign[256];
static size_t g_nforeign;
static Range g_image[32]; // writable segments of the program
static size_t g_nimage;
static bool g_first;

static int
on_image(dl_phdr_info* info, size_t, void*)
{
  bool own = g_first;
  g_first = false;
  for (int i = 0; i < info->dlpi_phnum; i++) {
    auto const& p = info->dlpi_phdr[i];
    if (p.p_type != PT_LOAD)
      continue;
    Range r = { info->dlpi_addr + p.p_vaddr, info->dlpi_addr + p.p_vaddr + p.p_memsz };
    if (own) {
      if ((p.p_flags & PF_W) && g_nimage < 32)
        g_image[g_nimage++] = r;
    } else if (g_nforeign < 256)
      g_foreign[g_nforeign++] = r;
  }
  return 0;
}
static bool
foreign(uintptr_t a)
{
  for (size_t i = 0; i < g_nforeign; i++)
    if (a - g_foreign[i].lo < g_foreign[i].hi - g_foreign[i].lo)
      return true;
  return false;
}
static bool
in_image(uintptr_t a)
{
  for (size_t i = 0; i < g_nimage; i++)
    if (a - g_image[i].lo < g_image[i].hi - g_image[i].lo)
      return true;
  return false;
}

// ---------------------------------------------------------------- shadow
struct Rec
{
  uint32_t epoch;
  uint8_t tid, mask, write, atomic;
  uintptr_t pc;
  const char* label;
  unsigned who;
};
constexpr int kRecs = 10;
struct Cell
{
  uintptr_t key; // address / 8; 0: free
  uint8_t n;
  uint8_t touched; // threads
  Rec r[kRecs];
};
static Cell* g_cells;
static size_t g_cap, g_used;

static size_t
slot(uintptr_t key)
{
  uint64_t x = key * 0x9E3779B97F4A7C15ULL;
  return (size_t)(x >> 20) & (g_cap - 1);
}
static Cell*
cell(uintptr_t key, bool create)
{
  if (create && g_used * 2 >= g_cap) {
    size_t oc = g_cap;
    Cell* old = g_cells;
    g_cap = oc ? oc * 2 : 1 << 14;
    g_cells = (Cell*)calloc(g_cap, sizeof(Cell));
    if (!g_cells)
      abort();
    for (size_t i = 0; i < oc; i++)
      if (old[i].key) {
        size_t s = slot(old[i].key);
        while (g_cells[s].key)
          s = (s + 1) & (g_cap - 1);
        g_cells[s] = old[i];
      }
    free(old);
  }
  if (!g_cap)
    return nullptr;
  size_t s = slot(key);
  while (g_cells[s].key && g_cells[s].key != key)
    s = (s + 1) & (g_cap - 1);
  if (g_cells[s].key)
    return &g_cells[s];
  if (!create)
    return nullptr;
  g_used++;
  g_cells[s].key = key;
  g_cells[s].n = 0;
  g_cells[s].touched = 0;
  return &g_cells[s];
}

static void
where(uintptr_t pc, char* out, size_t n)
{
  Dl_info d;
  if (pc && dladdr((void*)pc, &d) && d.dli_sname) {
    int st = 0;
    char* dem = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
    snprintf(out, n, "%.300s", dem ? dem : d.dli_sname);
    free(dem);
  } else
    snprintf(out, n, "?");
}
static void
race(const Rec& a, const Rec& b, uintptr_t addr)
{
  if (g_rcls[0])
    return;
  char wa[320], wb[320], wo[200] = "";
  where(a.pc, wa, sizeof wa);
  where(b.pc, wb, sizeof wb);
  Dl_info d;
  if (in_image(addr) && dladdr((void*)addr, &d) && d.dli_sname && addr >= (uintptr_t)d.dli_saddr) {
    int st = 0;
    char* dem = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
    snprintf(wo, sizeof wo, " of %.150s", dem ? dem : d.dli_sname);
    free(dem);
  } else if (in_image(addr))
    snprintf(wo, sizeof wo, " of a static object");
  snprintf(g_rcls, sizeof g_rcls, "data-race");
  snprintf(g_rmsg, sizeof g_rmsg, "unsynchronised %s by caller %u (%s) in %s and %s by caller %u (%s) in %s%s",
           a.write ? "write" : "read", a.who, a.label ? a.label : "?", wa, b.write ? "write" : "read", b.who,
           b.label ? b.label : "?", wb, wo);
}

static void
touch(uintptr_t key, uint8_t mask, bool write, bool atomic, uintptr_t pc, bool& shared)
{
  Cell* c = cell(key, true);
  unsigned me = (unsigned)g_cur;
  auto const& vc = g_t[me].vc;
  Rec now = { vc.c[me], (uint8_t)me, mask, (uint8_t)write, (uint8_t)atomic, pc, g_t[me].label, g_t[me].who };
  int same = -1, covered = -1;
  for (int i = 0; i < c->n; i++) {
    Rec const& o = c->r[i];
    if (o.tid == me) {
      if (o.write == now.write && o.atomic == now.atomic) {
        if (o.mask == mask)
          same = i;
        else if ((o.mask & mask) == o.mask)
          covered = i;
      }
      continue;
    }
    if (!(o.mask & mask) || (!o.write && !write) || (o.atomic && atomic))
      continue;
    if (o.epoch > vc.c[o.tid])
      race(o, now, key * 8);
  }
  if (same < 0)
    same = covered;
  if (same >= 0)
    c->r[same] = now;
  else if (c->n < kRecs)
    c->r[c->n++] = now;
  else
    c->r[(g_events + mask) % kRecs] = now;
  c->touched |= (uint8_t)(1u << me);
  if (c->touched & ~(1u << me))
    shared = true;
}

// ---------------------------------------------------------------- handover
static void
hand_over(int to)
{
  int me = t_me;
  if (to == me)
    return;
  g_switches++;
  g_hash = hmix(hmix(g_hash, (uint64_t)to), hmix(g_t[me].who, g_since[kGlobal]));
  g_cur = to;
  for (auto& s : g_since)
    s = 0;
  sem_post(&g_t[to].go);
  while (sem_wait(&g_t[me].go) != 0) {
  }
}
/// Next thread that can run, preferring want; -1: none
static int
pick(unsigned want, int not_this)
{
  for (int pass = 0; pass < 2; pass++)
    for (unsigned k = 0; k < g_n; k++) {
      unsigned i = (want + k) % g_n;
      if ((int)i == not_this || g_t[i].state != kReady)
        continue;
      if (pass == 0 && g_t[i].stalled)
        continue;
      g_t[i].stalled = false;
      return (int)i;
    }
  return -1;
}
static void
event(int cls)
{
  g_events++;
  g_since[kAny]++;
  if (cls == kGlobal) {
    g_global++;
    g_since[kGlobal]++;
  } else if (cls == kSync) {
    g_sync++;
    g_since[kGlobal]++;
    g_since[kSync]++;
  } else if (cls == kMark)
    g_since[kMark]++;
  for (int c = 0; c < kClasses; c++) {
    if (g_ipre[c] >= g_npre[c] || g_since[c] < g_pre[c][g_ipre[c]].n)
      continue;
    auto const& p = g_pre[c][g_ipre[c]++];
    int to = pick(p.to % g_n, t_me);
    if (to < 0)
      continue;
    if (p.stall) {
      g_t[t_me].stalled = true;
      g_stalls++;
    }
    g_in = false;
    hand_over(to);
    g_in = true;
    break;
  }
}
/// The running thread cannot go on: let another one run until it can.
static void
block(const void* on)
{
  g_t[t_me].state = kBlocked;
  g_t[t_me].on = on;
  int to = pick((unsigned)t_me + 1, t_me);
  if (to < 0) {
    if (!g_rcls[0]) {
      snprintf(g_rcls, sizeof g_rcls, "deadlock");
      snprintf(g_rmsg, sizeof g_rmsg, "every thread waits; caller %u is in %s", g_t[t_me].who, g_t[t_me].label);
    }
    g_stuck = true;
    sem_post(&g_main);
    for (;;)
      pause();
  }
  g_in = false;
  hand_over(to);
  g_in = true;
}
static void
wake(const void* on)
{
  for (unsigned i = 0; i < g_n; i++)
    if (g_t[i].state == kBlocked && g_t[i].on == on)
      g_t[i].state = kReady;
}

// ---------------------------------------------------------------- sync objects
struct Sync
{
  const void* addr;
  Clock vc;
  int owner;   // thread + 1
  int readers; // shared holders
  int depth;
  bool running; // a guard or once being initialised
};
static Sync g_syncs[4096];
static size_t g_nsyncs;
static Sync*
sync_of(const void* a)
{
  size_t h = ((uintptr_t)a >> 2) * 0x9E3779B97F4A7C15ULL >> 52;
  for (size_t k = 0; k < 4096; k++) {
    Sync* s = &g_syncs[(h + k) & 4095];
    if (s->addr == a)
      return s;
    if (!s->addr) {
      if (++g_nsyncs > 4000)
        abort();
      s->addr = a;
      return s;
    }
  }
  abort();
}
static void
acquire(Sync* s)
{
  auto& vc = g_t[t_me].vc;
  for (unsigned i = 0; i < kMaxThreads; i++)
    if (s->vc.c[i] > vc.c[i])
      vc.c[i] = s->vc.c[i];
}
static void
release(Sync* s)
{
  auto& vc = g_t[t_me].vc;
  for (unsigned i = 0; i < kMaxThreads; i++)
    if (vc.c[i] > s->vc.c[i])
      s->vc.c[i] = vc.c[i];
  vc.c[t_me]++;
}

static inline bool
live()
{
  return g_on && !g_in && !sim_paused && t_me >= 0;
}
struct In
{
  In() { g_in = true; }
  ~In() { g_in = false; }
};

static void
access(uintptr_t a, size_t n, bool write, bool atomic, uintptr_t pc)
{
  if (n == 0)
    return;
  auto const& t = g_t[t_me];
  if (a - t.lo < t.hi - t.lo)
    return;
  if (foreign(a))
    return;
  bool shared = in_image(a);
  // the event comes first: what another thread does now is seen
  {
    Cell* c = cell(a >> 3, false);
    if (c && (c->touched & ~(1u << t_me)))
      shared = true;
  }
  event(atomic ? kSync : shared ? kGlobal : kAny);
  uintptr_t end = a + n;
  bool dummy = false;
  while (a < end) {
    unsigned off = a & 7;
    size_t k = 8 - off;
    if (k > end - a)
      k = end - a;
    touch(a >> 3, (uint8_t)(((1u << k) - 1) << off), write, atomic, pc, dummy);
    a += k;
  }
}

// ---------------------------------------------------------------- running
static void*
thread_main(void* p)
{
  t_me = (int)(intptr_t)p;
  auto& t = g_t[t_me];
  pthread_attr_t at;
  pthread_getattr_np(pthread_self(), &at);
  void* base = nullptr;
  size_t size = 0;
  pthread_attr_getstack(&at, &base, &size);
  pthread_attr_destroy(&at);
  t.lo = (uintptr_t)base;
  t.hi = t.lo + size;
  while (sem_wait(&t.go) != 0) {
  }
  (*t.body)();
  g_in = true;
  t.state = kDone;
  int to = pick((unsigned)t_me + 1, t_me);
  if (to >= 0) {
    g_cur = to;
    g_hash = hmix(hmix(g_hash, (uint64_t)to), 77);
    for (auto& s : g_since)
      s = 0;
    g_in = false;
    sem_post(&g_t[to].go);
  } else {
    bool all = true;
    for (unsigned i = 0; i < g_n; i++)
      all = all && g_t[i].state == kDone;
    if (!all && !g_rcls[0]) {
      snprintf(g_rcls, sizeof g_rcls, "deadlock");
      snprintf(g_rmsg, sizeof g_rmsg, "the remaining threads wait for ever");
    }
    g_stuck = !all;
    g_on = false;
    g_in = false;
    sem_post(&g_main);
  }
  // the destructors of thread-local objects run one thread after the other
  while (sem_wait(&t.leave) != 0) {
  }
  return nullptr;
}

Report
run(const std::vector<std::function<void()>>& bodies, const std::vector<Preemption>& pre, unsigned first)
{
  g_n = (unsigned)bodies.size();
  if (g_n == 0 || g_n > kMaxThreads)
    abort();
  g_first = true;
  g_nforeign = g_nimage = 0;
  dl_iterate_phdr(on_image, nullptr);
  static std::vector<Preemption> by_class[kClasses];
  for (int c = 0; c < kClasses; c++) {
    by_class[c].clear();
    for (auto const& p : pre)
      if (p.cls == c)
        by_class[c].push_back(p);
    g_pre[c] = by_class[c].data();
    g_npre[c] = by_class[c].size();
    g_ipre[c] = 0;
  }
  g_events = g_global = g_sync = g_switches = g_stalls = g_hash = 0;
  for (auto& s : g_since)
    s = 0;
  g_rcls[0] = g_rmsg[0] = 0;
  g_stuck = false;
  sem_init(&g_main, 0, 0);
  for (unsigned i = 0; i < g_n; i++) {
    auto& t = g_t[i];
    t.state = kReady;
    t.stalled = false;
    t.on = nullptr;
    memset(&t.vc, 0, sizeof t.vc);
    t.vc.c[i] = 1;
    t.label = nullptr;
    t.who = 0;
    t.body = &bodies[i];
    sem_init(&t.go, 0, 0);
    sem_init(&t.leave, 0, 0);
    if (pthread_create(&t.th, nullptr, thread_main, (void*)(intptr_t)i) != 0) {
      fprintf(stderr, "pthread_create failed\n");
      _exit(3);
    }
  }
  g_cur = (int)(first % g_n);
  g_in = false;
  g_on = true;
  sem_post(&g_t[g_cur].go);
  while (sem_wait(&g_main) != 0) {
  }
  g_on = false;
  if (!g_stuck)
    for (unsigned i = 0; i < g_n; i++) {
      sem_post(&g_t[i].leave);
      pthread_join(g_t[i].th, nullptr);
    }
  Report rep;
  rep.cls = g_rcls;
  rep.msg = g_rmsg;
  rep.events = g_events;
  rep.global = g_global;
  rep.sync = g_sync;
  rep.switches = g_switches;
  rep.stalls = g_stalls;
  rep.schedule = g_hash;
  return rep;
}

void
mark(const char* what, unsigned who)
{
  if (!live())
    return;
  In in;
  g_t[t_me].label = what;
  g_t[t_me].who = who;
  event(kMark);
}
} // namespace sim::tsched

using namespace sim::tsched;

#define PC ((uintptr_t)__builtin_return_address(0))
#define ACCESS(n, w)                                                                                                    \
  if (live()) {                                                                                                        \
    In in;                                                                                                             \
    sim::tsched::access((uintptr_t)p, n, w, false, PC);                                                                \
  }

extern "C" {
void simts_init() {}
void simts_func_entry(void*) {}
void simts_func_exit() {}
void simts_read1(void* p) { ACCESS(1, false) }
void simts_read2(void* p) { ACCESS(2, false) }
void simts_read4(void* p) { ACCESS(4, false) }
void simts_read8(void* p) { ACCESS(8, false) }
void simts_read16(void* p) { ACCESS(16, false) }
void simts_write1(void* p) { ACCESS(1, true) }
void simts_write2(void* p) { ACCESS(2, true) }
void simts_write4(void* p) { ACCESS(4, true) }
void simts_write8(void* p) { ACCESS(8, true) }
void simts_write16(void* p) { ACCESS(16, true) }
void simts_unaligned_read2(void* p) { ACCESS(2, false) }
void simts_unaligned_read4(void* p) { ACCESS(4, false) }
void simts_unaligned_read8(void* p) { ACCESS(8, false) }
void simts_unaligned_read16(void* p) { ACCESS(16, false) }
void simts_unaligned_write2(void* p) { ACCESS(2, true) }
void simts_unaligned_write4(void* p) { ACCESS(4, true) }
void simts_unaligned_write8(void* p) { ACCESS(8, true) }
void simts_unaligned_write16(void* p) { ACCESS(16, true) }
void simts_volatile_read1(void* p) { ACCESS(1, false) }
void simts_volatile_read2(void* p) { ACCESS(2, false) }
void simts_volatile_read4(void* p) { ACCESS(4, false) }
void simts_volatile_read8(void* p) { ACCESS(8, false) }
void simts_volatile_write1(void* p) { ACCESS(1, true) }
void simts_volatile_write2(void* p) { ACCESS(2, true) }
void simts_volatile_write4(void* p) { ACCESS(4, true) }
void simts_volatile_write8(void* p) { ACCESS(8, true) }
void simts_read_range(void* p, size_t n) { ACCESS(n, false) }
void simts_write_range(void* p, size_t n) { ACCESS(n, true) }
void simts_vptr_read(void** p) { ACCESS(8, false) }
void
simts_vptr_update(void** p, void* v)
{
  // storing the value that is there already is harmless
  if (*p != v)
    ACCESS(8, true)
}

// -- atomics: executed while nothing else runs, so plain operations do
static void
atomic_event(const volatile void* p, size_t n, bool write, int mo, bool after, uintptr_t pc)
{
  // mo: 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acq_rel, 5 seq_cst
  mo &= 15;
  if (!after) {
    sim::tsched::access((uintptr_t)p, n, write, true, pc);
    auto* s = sync_of((const void*)p);
    if (mo == 1 || mo == 2 || mo == 4 || mo == 5)
      acquire(s);
    if (write && (mo == 3 || mo == 4 || mo == 5))
      release(s);
  }
}
#define ATOMIC(T, N)                                                                                                    \
  T simts_atomic##N##_load(const volatile T* p, int mo)                                                               \
  {                                                                                                                    \
    if (live()) {                                                                                                      \
      In in;                                                                                                           \
      atomic_event(p, sizeof(T), false, mo, false, PC);                                                                \
    }                                                                                                                  \
    return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                                       \
  }                                                                                                                    \
  void simts_atomic##N##_store(volatile T* p, T v, int mo)                                                            \
  {                                                                                                                    \
    if (live()) {                                                                                                      \
      In in;                                                                                                           \
      atomic_event(p, sizeof(T), true, mo, false, PC);                                                                 \
    }                                                                                                                  \
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                          \
  }                                                                                                                    \
  T simts_atomic##N##_exchange(volatile T* p, T v, int mo)                                                            \
  {                                                                                                                    \
    if (live()) {                                                                                                      \
      In in;                                                                                                           \
      atomic_event(p, sizeof(T), true, mo, false, PC);                                                                 \
    }                                                                                                                  \
    return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                                \
  }                                                                                                                    \
  int simts_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int)                                \
  {                                                                                                                    \
    if (live()) {                                                                                                      \
      In in;                                                                                                           \
      atomic_event(p, sizeof(T), true, mo, false, PC);                                                                 \
    }                                                                                                                  \
    return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                            \
  }                                                                                                                    \
  int simts_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo)                              \
  {                                                                                                                    \
    return simts_atomic##N##_compare_exchange_strong(p, e, v, mo, fmo);                                               \
  }                                                                                                                    \
  T simts_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo)                                  \
  {                                                                                                                    \
    simts_atomic##N##_compare_exchange_strong(p, &e, v, mo, fmo);                                                     \
    return e;                                                                                                          \
  }
#define FETCH(T, N, op)                                                                                                \
  T simts_atomic##N##_fetch_##op(volatile T* p, T v, int mo)                                                          \
  {                                                                                                                    \
    if (live()) {                                                                                                      \
      In in;                                                                                                           \
      atomic_event(p, sizeof(T), true, mo, false, PC);                                                                 \
    }                                                                                                                  \
    return __atomic_fetch_##op(p, v, __ATOMIC_SEQ_CST);                                                                \
  }
#define ALL(T, N) ATOMIC(T, N) FETCH(T, N, add) FETCH(T, N, sub) FETCH(T, N, and) FETCH(T, N, or) FETCH(T, N, xor) FETCH(T, N, nand)
ALL(uint8_t, 8)
ALL(uint16_t, 16)
ALL(uint32_t, 32)
ALL(uint64_t, 64)
void
simts_atomic_thread_fence(int)
{
  if (live()) {
    In in;
    // fences order everything that passes through them
    static char all;
    auto* s = sync_of(&all);
    acquire(s);
    release(s);
    sim::tsched::event(kSync);
  }
}
void simts_atomic_signal_fence(int) {}

// -- memory that changes hands
void
sim_on_alloc(void* p, size_t n)
{
  if (!g_on || !g_cap)
    return;
  for (uintptr_t k = (uintptr_t)p >> 3; k <= ((uintptr_t)p + n) >> 3; k++)
    if (Cell* c = cell(k, false)) {
      c->n = 0;
      c->touched = 0;
    }
}
void
sim_on_free(void* p, size_t n)
{
  if (!live())
    return;
  In in;
  bool dummy = false;
  for (uintptr_t k = (uintptr_t)p >> 3; k < ((uintptr_t)p + n) >> 3; k++)
    if (cell(k, false))
      touch(k, 0xff, true, false, PC, dummy);
}

// -- memory functions called by instrumented code
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
void* __real_memchr(const void*, int, size_t);
size_t __real_strlen(const char*);
int __real_strcmp(const char*, const char*);
#define TOUCH(p, n, w)                                                                                                  \
  if (live()) {                                                                                                        \
    In in;                                                                                                             \
    sim::tsched::access((uintptr_t)(p), n, w, false, PC);                                                              \
  }
void*
__wrap_memcpy(void* d, const void* s, size_t n)
{
  TOUCH(s, n, false)
  TOUCH(d, n, true)
  return __real_memcpy(d, s, n);
}
void*
__wrap_memmove(void* d, const void* s, size_t n)
{
  TOUCH(s, n, false)
  TOUCH(d, n, true)
  return __real_memmove(d, s, n);
}
void*
__wrap_memset(void* d, int c, size_t n)
{
  TOUCH(d, n, true)
  return __real_memset(d, c, n);
}
int
__wrap_memcmp(const void* a, const void* b, size_t n)
{
  TOUCH(a, n, false)
  TOUCH(b, n, false)
  return __real_memcmp(a, b, n);
}
void*
__wrap_memchr(const void* a, int c, size_t n)
{
  TOUCH(a, n, false)
  return __real_memchr(a, c, n);
}
size_t
__wrap_strlen(const char* s)
{
  size_t n = __real_strlen(s);
  TOUCH(s, n + 1, false)
  return n;
}
int
__wrap_strcmp(const char* a, const char* b)
{
  TOUCH(a, __real_strlen(a) + 1, false)
  TOUCH(b, __real_strlen(b) + 1, false)
  return __real_strcmp(a, b);
}

// -- static initialisation
int __real___cxa_guard_acquire(int64_t*);
void __real___cxa_guard_release(int64_t*);
void __real___cxa_guard_abort(int64_t*);
int
__wrap___cxa_guard_acquire(int64_t* g)
{
  if (!live())
    return __real___cxa_guard_acquire(g);
  In in;
  sim::tsched::event(kSync);
  auto* s = sync_of(g);
  while (s->running) {
    if (s->owner == t_me + 1)
      break; // recursive initialisation: let the real thing complain
    block(g);
  }
  acquire(s);
  if (*(volatile char*)g)
    return 0;
  int r = __real___cxa_guard_acquire(g);
  if (r) {
    s->running = true;
    s->owner = t_me + 1;
  }
  return r;
}
void
__wrap___cxa_guard_release(int64_t* g)
{
  if (!live())
    return __real___cxa_guard_release(g);
  In in;
  auto* s = sync_of(g);
  s->running = false;
  release(s);
  __real___cxa_guard_release(g);
  wake(g);
  sim::tsched::event(kSync);
}
void
__wrap___cxa_guard_abort(int64_t* g)
{
  if (!live())
    return __real___cxa_guard_abort(g);
  In in;
  auto* s = sync_of(g);
  s->running = false;
  release(s);
  __real___cxa_guard_abort(g);
  wake(g);
}

// -- locks: simulated while a controlled thread runs
static bool
recursive(pthread_mutex_t* m)
{
  return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
}
static int
lock(void* m, bool rec, bool try_only)
{
  In in;
  sim::tsched::event(kSync);
  auto* s = sync_of(m);
  while (s->owner || s->readers) {
    if (s->owner == t_me + 1 && rec) {
      s->depth++;
      return 0;
    }
    if (try_only)
      return 16; // EBUSY
    block(m);
  }
  s->owner = t_me + 1;
  s->depth = 1;
  acquire(s);
  return 0;
}
static int
unlock(void* m)
{
  In in;
  auto* s = sync_of(m);
  if (s->readers && !s->owner)
    s->readers--;
  else if (--s->depth <= 0)
    s->owner = 0;
  release(s);
  if (!s->owner && !s->readers)
    wake(m);
  sim::tsched::event(kSync);
  return 0;
}
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int
__wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
  return live() ? lock(m, recursive(m), false) : __real_pthread_mutex_lock(m);
}
int
__wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
  return live() ? lock(m, recursive(m), true) : __real_pthread_mutex_trylock(m);
}
int
__wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
  return live() ? unlock(m) : __real_pthread_mutex_unlock(m);
}
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int
__wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
  if (!live())
    return __real_pthread_rwlock_rdlock(m);
  In in;
  sim::tsched::event(kSync);
  auto* s = sync_of(m);
  while (s->owner)
    block(m);
  s->readers++;
  acquire(s);
  return 0;
}
int
__wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
  return live() ? lock(m, false, false) : __real_pthread_rwlock_wrlock(m);
}
int
__wrap_pthread_rwlock_unlock(pthread_rwlock_t* m)
{
  return live() ? unlock(m) : __real_pthread_rwlock_unlock(m);
}
int __real_pthread_once(pthread_once_t*, void (*)());
int
__wrap_pthread_once(pthread_once_t* o, void (*f)())
{
  if (!live())
    return __real_pthread_once(o, f);
  {
    In in;
    sim::tsched::event(kSync);
    auto* s = sync_of(o);
    while (s->running)
      block(o);
    acquire(s);
    if (s->depth)
      return 0;
    s->running = true;
  }
  int rc = 0;
  try {
    rc = __real_pthread_once(o, f); // runs f if nobody has before the threads started
  } catch (...) {
    In in;
    auto* s = sync_of(o);
    s->running = false;
    wake(o);
    throw;
  }
  {
    In in;
    auto* s = sync_of(o);
    s->running = false;
    s->depth = 1;
    release(s);
    wake(o);
    sim::tsched::event(kSync);
  }
  return rc;
}
} // extern "C"
