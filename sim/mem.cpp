#include "mem.hpp"
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>
#include <sys/mman.h>

// Told by the thread scheduler's checks which memory changes hands.
extern "C" __attribute__((weak)) void sim_on_alloc(void*, size_t);
extern "C" __attribute__((weak)) void sim_on_free(void*, size_t);
// Non-zero while the simulator itself is at work.
extern "C" int sim_paused;
int sim_paused = 0;

namespace sim::mem {
static int64_t g_nth = 0;
static bool g_armed = false, g_sticky = false;
static int g_pause = 0;
static uint64_t g_seen = 0, g_failed = 0;
static int64_t g_live = 0;
static size_t g_bytes = 0;
constexpr size_t kTotal = size_t(1) << 30; // a runaway loop must not take the machine

void
arm(int64_t nth, bool sticky)
{
  g_nth = nth;
  g_sticky = sticky;
  g_seen = g_failed = 0;
  g_armed = true;
}
uint64_t
disarm()
{
  g_armed = false;
  return g_seen;
}
uint64_t
failures()
{
  return g_failed;
}
int64_t
live()
{
  return g_live;
}
Pause::Pause()
{
  g_pause++;
  sim_paused++;
}
Pause::~Pause()
{
  g_pause--;
  sim_paused--;
}

// A world of its own: blocks lie where the simulator says and hold what it says.
static int g_place = kAnywhere, g_fill = 0xA5;
static char *g_lo = nullptr, *g_hi = nullptr, *g_from = nullptr, *g_to = nullptr;
static char* g_used[64]; // blocks given back, by size
constexpr size_t kArena = size_t(1) << 28;

void
world(int place, int fill)
{
  g_place = place;
  g_fill = fill;
  if (place != kAnywhere && !g_lo) {
    void* p = mmap((void*)0x200000000000, kArena, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
      g_place = kAnywhere;
      return;
    }
    g_lo = g_from = (char*)p;
    g_hi = g_to = g_lo + kArena;
  }
}
static bool
ours(void* p)
{
  return g_lo && (char*)p >= g_lo && (char*)p < g_hi;
}
// 32 bytes before a block: its size, and the block after it in a list
static size_t&
size_of(char* p)
{
  return *(size_t*)(p - 32);
}
static char*&
next_of(char* p)
{
  return *(char**)(p - 24);
}
static void*
take(size_t n, size_t align)
{
  if (align > 32 || n > kArena / 4)
    return nullptr;
  size_t room = (n + 31) / 32 * 32 + 32;
  if (g_place == kReused && room / 32 < 64) {
    if (char* p = g_used[room / 32]) {
      g_used[room / 32] = next_of(p);
      size_of(p) = n;
      return p;
    }
  }
  if ((size_t)(g_to - g_from) < room)
    return nullptr;
  char* p;
  if (g_place == kDownwards)
    p = (g_to -= room) + 32;
  else {
    p = g_from + 32;
    g_from += room;
  }
  size_of(p) = n;
  return p;
}
static size_t
extent(void* p)
{
  return ours(p) ? size_of((char*)p) : malloc_usable_size(p);
}

static void*
get(size_t n, size_t align, bool nothrow)
{
  if (g_armed && g_pause == 0) {
    g_seen++;
    if (g_nth > 0 && ((int64_t)g_seen == g_nth || (g_sticky && (int64_t)g_seen > g_nth))) {
      g_failed++;
      if (nothrow)
        return nullptr;
      throw std::bad_alloc();
    }
  }
  void* p = nullptr;
  if (g_place != kAnywhere && g_pause == 0)
    p = take(n, align);
  bool stale = p && g_fill < 0;
  if (!p && n <= kMax && g_bytes < kTotal)
    p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
  if (!p) {
    if (nothrow)
      return nullptr;
    throw std::bad_alloc();
  }
  // a block that comes back is new, before anything is written to it
  if (sim_on_alloc)
    sim_on_alloc(p, n);
  sim_paused++;
  if (!stale)
    memset(p, g_fill < 0 ? 0xA5 : g_fill, n);
  sim_paused--;
  g_live++;
  g_bytes += extent(p);
  return p;
}
static void
put(void* p)
{
  if (!p)
    return;
  if (sim_on_free)
    sim_on_free(p, extent(p));
  g_live--;
  g_bytes -= extent(p);
  if (!ours(p)) {
    free(p);
    return;
  }
  size_t n = extent(p);
  if (g_fill >= 0)
    memset(p, 0xDD, n);
  size_t room = (n + 31) / 32 + 1;
  if (g_place == kReused && room < 64) {
    next_of((char*)p) = g_used[room];
    g_used[room] = (char*)p;
  }
}
} // namespace sim::mem

using sim::mem::get;
using sim::mem::put;
void* operator new(size_t n) { return get(n, 0, false); }
void* operator new[](size_t n) { return get(n, 0, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n, 0, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n, 0, true); }
void* operator new(size_t n, std::align_val_t a) { return get(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return get(n, (size_t)a, false); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete(void* p, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { put(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { put(p); }
