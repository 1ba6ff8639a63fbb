// Fault plans for operations that write one file: nth failing allocation,
// sticky, room left on the disk (-1: unlimited), then up to two system call
// faults of six numbers each.
#pragma once
#include "common.hpp"

namespace chk {
inline void
write_faults(Rng& g, std::vector<int64_t>& a, int64_t size_hint)
{
  int64_t nth = 0, sticky = 0, room = -1;
  std::vector<int64_t> f6;
  switch (g.below(8)) {
    case 0:
    case 1:
      break;
    case 2:
      nth = g.chance(0.5) ? g.range(1, 12) : g.range(1, 400);
      sticky = g.range(0, 1);
      break;
    case 3:
      room = g.chance(0.3) ? g.range(0, 4) : g.range(0, size_hint);
      break;
    default:
      for (int q = (int)g.range(1, 2); q > 0; q--) {
        sim::fs::Fault f;
        switch (g.below(10)) {
          case 0:
            f.op = sim::fs::kOpen;
            f.what = sim::fs::kOpenErr;
            f.arg = g.range(0, 7);
            break;
          case 1:
            f.op = (int)g.range(sim::fs::kSeek, sim::fs::kStat);
            f.what = sim::fs::kEIO;
            break;
          default: {
            f.op = sim::fs::kWrite;
            static const int w[] = { sim::fs::kEINTR, sim::fs::kShort, sim::fs::kShort, sim::fs::kEIO, sim::fs::kEIO, sim::fs::kENOSPC, sim::fs::kCrash };
            f.what = w[g.below(7)];
            f.arg = g.chance(0.3) ? g.range(1, 3) : g.range(1, size_hint);
          }
        }
        f.nth = g.chance(0.5) ? 1 : g.range(1, 1 + size_hint / 4000);
        f.count = g.chance(0.7) ? 1 : g.range(1, 40);
        for (auto v : sim::fs::encode(f))
          f6.push_back(v);
      }
  }
  a.push_back(nth);
  a.push_back(sticky);
  a.push_back(room);
  a.insert(a.end(), f6.begin(), f6.end());
}

struct Outcome
{
  bool threw = false, harmed = false;
  std::string what;
};

/// Run @p op under the faults found in s.a from position at.
template<class F>
Outcome
under_faults(Run& r, const Step& s, size_t at, const std::string& replaced, F&& op)
{
  namespace fs = sim::fs;
  Outcome o;
  std::vector<fs::Fault> v;
  for (size_t k = at + 3; k + 6 <= s.a.size() && v.size() < 2; k += 6)
    v.push_back(fs::decode(s.a, k));
  if (s.at(at + 2, -1) >= 0) {
    int64_t used = 0;
    for (auto& f : fs::list())
      if (f != replaced)
        used += (int64_t)fs::get(f).size();
    fs::capacity(used + s.at(at + 2));
  }
  fs::arm(v);
  uint64_t oom = 0;
  try {
    sim::mem::Scope scope(s.at(at), s.at(at + 1) & 1);
    try {
      op();
    } catch (...) {
      oom = sim::mem::failures();
      throw;
    }
    oom = sim::mem::failures();
  } catch (const std::exception& e) {
    o.threw = true;
    o.what = e.what();
  }
  auto fired = fs::fired();
  if (oom)
    r.fault("out-of-memory");
  o.harmed = oom || fired.errors || fired.crash || fired.nospace;
  fs::disarm();
  fs::capacity(-1);
  return o;
}
} // namespace chk
