// Controlled scheduling of real threads. The code under test is compiled with
// -fsanitize=thread, but linked to this runtime instead of TSan's: every memory
// access outside the own stack, every atomic, lock and static initialisation
// guard is an event at which the plan may hand over to another thread. Exactly
// one thread runs at any time. Happens-before is tracked with vector clocks, and
// conflicting accesses that are not ordered by it are reported.
#pragma once
#include "core.hpp"
#include <string>
#include <vector>

namespace sim::tsched {

enum Class
{
  kAny,    // any event
  kGlobal, // access to static memory, or to memory another thread has touched
  kSync,   // atomics, locks, guards
  kMark,   // boundaries between the operations of a thread (see mark())
  kClasses
};

/// Hand over at the nth event of a class since the last handover. The next one
/// of each class is armed at any time; the rest of its class waits behind it.
struct Preemption
{
  int cls = kAny;
  uint64_t n = 1;
  unsigned to = 0;    // thread to run next
  bool stall = false; // the running one then waits until nothing else can run
};

struct Report
{
  std::string cls, msg; // empty: nothing
  uint64_t events = 0, global = 0, sync = 0;
  uint64_t switches = 0, stalls = 0;
  uint64_t schedule = 0; // hash of the handovers
};

/// Run the bodies as threads; returns when all have finished or are stuck.
Report
run(const std::vector<std::function<void()>>& bodies, const std::vector<Preemption>& pre, unsigned first);

/// An operation starts or ends: an event, with a label for reports.
void
mark(const char* what, unsigned who);

} // namespace sim::tsched
