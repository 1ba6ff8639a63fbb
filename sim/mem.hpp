// Allocation seam: operator new/delete are replaced; the plan decides which
// allocation fails.
#pragma once
#include "core.hpp"

namespace sim::mem {
/// From now on, let the nth allocation (1 = the next) fail; all later ones too
/// if sticky. nth <= 0: none fails, they are only counted.
void
arm(int64_t nth, bool sticky = false);
/// Stop failing; returns the number of allocations seen since arm().
uint64_t
disarm();
uint64_t
failures();
/// Blocks currently allocated through operator new
int64_t
live();
/// Largest single allocation allowed (larger ones fail)
constexpr size_t kMax = size_t(1) << 28;

/// Where new blocks lie from now on, in an arena at a fixed address: each after
/// the one before, each before the one before, or where one of that size was
/// given back last. They hold that byte at first (-1: what is there).
enum Place
{
  kAnywhere,
  kUpwards,
  kDownwards,
  kReused
};
void
world(int place, int fill);

/// While one exists allocations neither fail nor count: the simulator's own.
struct Pause
{
  Pause();
  ~Pause();
};

/// Arms for a scope.
struct Scope
{
  explicit Scope(int64_t nth, bool sticky = false) { arm(nth, sticky); }
  ~Scope() { disarm(); }
};
} // namespace sim::mem
