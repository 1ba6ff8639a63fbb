// C15: lattice objects answer correctly or throw when memory runs out, never in
// between.
#include "lattice_model.hpp"
#include <memory>

using namespace chk;

namespace {

struct Sim
{
  Run& r;
  static constexpr int N = 3;
  std::unique_ptr<HyperCubicGrid> g[N];
  GridModel gm[N];
  std::unique_ptr<Bravais> b[N];
  BravaisModel bm[N];
  std::unique_ptr<Lattice> l[N];
  LatticeModel lm[N];
  uint64_t starved = 0;

  void verify(int kind, int k, uint64_t seed, int questions)
  {
    Asker ask{ r };
    Rng q(seed);
    for (int i = 0; i < questions; i++)
      if (kind == 0)
        ask_grid(ask, *g[k], gm[k], q, i < 2 ? i : -1);
      else if (kind == 1)
        ask_bravais(ask, *b[k], bm[k], q, i < 1 ? 0 : -1);
      else
        ask_lattice(ask, *l[k], lm[k], q, i < 13 ? i : -1);
    if (kind == 2 && lm[k].sites()) {
      // the ends of every table
      auto& m = lm[k];
      for (size_t i : { (size_t)0, m.sites() - 1, m.sites() / 2 }) {
        if (!close(l[k]->GetPosition(i), m.b.point(m.at(i)), 1e-11, m.b.unit()))
          r.fail("answer", "position %zu is wrong", i);
        auto w = l[k]->GetNeighbors(i);
        std::sort(w.begin(), w.end());
        if (w != m.neighbors(i))
          r.fail("answer", "neighbours of %zu are wrong", i);
        if (m.closed && !close(l[k]->GetMomentum(i), m.momentum(i), 1e-11, 1 / m.b.unit()))
          r.fail("answer", "momentum %zu is wrong", i);
      }
    }
  }

  static std::vector<size_t> sizes(const Step& s, size_t at, size_t dim, bool big)
  {
    std::vector<size_t> v;
    for (size_t k = 0; k < dim; k++) {
      uint64_t x = (uint64_t)s.at(at + k, 1);
      if (big)
        // of every order of magnitude
        v.push_back(1 + x / 64 % (1ull << x % (dim == 1 ? 41 : 21)));
      else
        v.push_back(1 + x % (dim == 1 ? 60 : dim == 2 ? 20 : dim == 3 ? 5 : 3));
    }
    return v;
  }

  /// runs an operation that may run out of memory; true if it did
  template<class F>
  bool attempt(int64_t nth, int64_t sticky, const char* what, F f, bool noleak)
  {
    int64_t before = sim::mem::live();
    bool out = false;
    uint64_t failed;
    {
      sim::mem::Scope scope(nth, sticky & 1);
      try {
        f();
      } catch (const std::bad_alloc&) {
        out = true;
      }
      failed = sim::mem::failures();
    }
    if (failed)
      r.fault("out-of-memory");
    if (out && !failed)
      r.fail("spurious", "%s ran out of memory although there was some", what);
    if (out && noleak && sim::mem::live() != before)
      r.fail("leak", "%s ran out of memory and left %lld allocations behind", what, (long long)(sim::mem::live() - before));
    starved += out;
    return out;
  }

  void run(const Plan& p)
  {
    for (int k = 0; k < N; k++) {
      g[k] = std::make_unique<HyperCubicGrid>();
      bm[k].type = k;
      b[k] = std::make_unique<Bravais>(bm[k].get());
      l[k] = std::make_unique<Lattice>();
    }
    for (auto& s : p.steps) {
      r.mixs(s.op);
      // args: kind, slot, slot2, nth, sticky, ...
      const int kind = (int)((uint64_t)s.at(0) % 3), k = (int)((uint64_t)s.at(1) % N), j = (int)((uint64_t)s.at(2) % N);
      const int64_t nth = s.at(3), st = s.at(4);
      const uint64_t seed = (uint64_t)s.at(5);
      if (s.op == "ask") {
        Asker ask{ r, nth, (bool)(st & 1) };
        Rng q(seed);
        int what = (int)s.at(6);
        if (kind == 0)
          ask_grid(ask, *g[k], gm[k], q, what);
        else if (kind == 1)
          ask_bravais(ask, *b[k], bm[k], q, what);
        else
          ask_lattice(ask, *l[k], lm[k], q, what);
        if (ask.starved) {
          starved++;
          r.probe("query-starved");
        }
      } else if (s.op == "new") {
        // args: ..., type, closed, sizes, big
        const int type = (int)(seed % 3 ? seed / 3 % 4 : seed / 3 % kBravaisTypes);
        const bool closed = s.at(6) & 1;
        auto bound = closed ? Lattice::boundaries_t::Closed : Lattice::boundaries_t::Open;
        if (kind == 0) {
          size_t dim = 1 + seed % 4;
          auto size = sizes(s, 7, dim, dim < 4 && (s.at(6) & 2));
          HyperCubicGrid* x = nullptr;
          if (!attempt(nth, st, "constructing a grid", [&] { x = new HyperCubicGrid(size, bound); }, true)) {
            g[k].reset(x);
            gm[k].size = size;
            gm[k].closed = closed;
            verify(0, k, seed, 8);
          }
        } else if (kind == 2) {
          BravaisModel m;
          m.type = type;
          auto size = sizes(s, 7, m.dim(), false);
          Lattice* x = nullptr;
          // a Bravais lattice of its own or a predefined one
          Bravais own = m.get();
          if (!attempt(nth, st, "constructing a lattice", [&] { x = new Lattice((s.at(6) & 4) ? own : m.get(), size, bound); }, true)) {
            l[k].reset(x);
            lm[k].size = size;
            lm[k].closed = closed;
            lm[k].b = m;
            verify(2, k, seed, 16);
            r.probe("lattice-built");
            if (type > 3)
              r.probe("basis-of-its-own");
          } else
            r.probe("lattice-construction-starved");
        } else {
          bm[k].type = type;
          b[k] = std::make_unique<Bravais>(bm[k].get());
        }
      } else if (s.op == "assign" || s.op == "swap") {
        bool out = false, swap = s.op == "swap";
        if (kind == 0) {
          out = attempt(nth, st, "assigning a grid", [&] { swap ? std::swap(*g[k], *g[j]) : (void)(*g[k] = *g[j]); }, true);
          if (!out)
            swap ? std::swap(gm[k], gm[j]) : (void)(gm[k] = gm[j]);
        } else if (kind == 1) {
          out = attempt(nth, st, "assigning a Bravais lattice", [&] { swap ? std::swap(*b[k], *b[j]) : (void)(*b[k] = *b[j]); }, true);
          if (!out)
            swap ? std::swap(bm[k], bm[j]) : (void)(bm[k] = bm[j]);
        } else {
          out = attempt(nth, st, "assigning a lattice", [&] { swap ? std::swap(*l[k], *l[j]) : (void)(*l[k] = *l[j]); }, true);
          if (!out)
            swap ? std::swap(lm[k], lm[j]) : (void)(lm[k] = lm[j]);
        }
        if (swap && out)
          r.fail("swap", "exchanging two objects ran out of memory");
        r.probe(out ? "assignment-starved" : k == j ? "self-assignment" : "assigned");
        verify(kind, k, seed, 16);
        verify(kind, j, seed + 1, 16);
      } else if (s.op == "copy") {
        bool out = false;
        if (kind == 0) {
          HyperCubicGrid* x = nullptr;
          out = attempt(nth, st, "copying a grid", [&] { x = new HyperCubicGrid(*g[j]); }, true);
          if (!out)
            g[k].reset(x), gm[k] = gm[j];
        } else if (kind == 1) {
          Bravais* x = nullptr;
          out = attempt(nth, st, "copying a Bravais lattice", [&] { x = new Bravais(*b[j]); }, true);
          if (!out)
            b[k].reset(x), bm[k] = bm[j];
        } else {
          Lattice* x = nullptr;
          out = attempt(nth, st, "copying a lattice", [&] { x = new Lattice(*l[j]); }, true);
          if (!out)
            l[k].reset(x), lm[k] = lm[j];
        }
        verify(kind, k, seed, 16);
        verify(kind, j, seed + 1, 16);
      } else if (s.op == "move") {
        // the source is replaced afterwards
        if (k == j)
          continue;
        if (kind == 0) {
          if (s.at(6) & 1)
            *g[k] = std::move(*g[j]);
          else
            g[k] = std::make_unique<HyperCubicGrid>(std::move(*g[j]));
          gm[k] = gm[j];
          g[j] = std::make_unique<HyperCubicGrid>();
          gm[j] = GridModel();
        } else if (kind == 1) {
          if (s.at(6) & 1)
            *b[k] = std::move(*b[j]);
          else
            b[k] = std::make_unique<Bravais>(std::move(*b[j]));
          bm[k] = bm[j];
          b[j] = std::make_unique<Bravais>(bm[j].get());
        } else {
          if (s.at(6) & 1)
            *l[k] = std::move(*l[j]);
          else
            l[k] = std::make_unique<Lattice>(std::move(*l[j]));
          lm[k] = lm[j];
          l[j] = std::make_unique<Lattice>();
          lm[j] = LatticeModel();
        }
        verify(kind, k, seed, 16);
      } else if (s.op == "huge") {
        // more sites than sixteen bits count
        LatticeModel m;
        m.closed = s.at(6) & 1;
        m.b.type = (int)(seed % 4);
        switch (m.b.type) {
          case 0:
            m.size = { 65500 + (size_t)s.at(7) % 500 };
            break;
          case 2:
            m.size = { 41, 40 + (size_t)s.at(7) % 3, 41 };
            break;
          default:
            m.size = { 250 + (size_t)s.at(7) % 20, 265 };
            if (s.at(7) & 1)
              std::swap(m.size[0], m.size[1]);
        }
        std::unique_ptr<Lattice> x;
        Lattice* y = nullptr;
        if (!attempt(nth, st, "constructing a huge lattice", [&] { y = new Lattice(m.b.get(), m.size, m.closed ? Lattice::boundaries_t::Closed : Lattice::boundaries_t::Open); }, true)) {
          x.reset(y);
          Asker ask{ r };
          Rng q(seed);
          for (int i = 0; i < 300; i++)
            ask_lattice(ask, *x, m, q);
          if (m.sites() > 65536)
            r.probe("more-than-65536-sites");
        }
      } else if (s.op == "slice") {
        // a grid taken from a lattice
        bool out = attempt(nth, st, "taking the grid of a lattice", [&] { *g[k] = l[j]->GetGrid(); }, true);
        if (!out) {
          gm[k] = lm[j];
        }
        verify(0, k, seed, 10);
        verify(2, j, seed, 16);
      }
      uint64_t h = starved;
      for (int q = 0; q < N; q++)
        h = sim::hmix(sim::hmix(sim::hmix(h, gm[q].sites()), (uint64_t)bm[q].type), lm[q].sites() * 8 + lm[q].closed * 4 + (uint64_t)lm[q].b.type);
      r.state(h);
    }
    for (int k = 0; k < N; k++)
      for (int kind = 0; kind < 3; kind++)
        verify(kind, k, (uint64_t)k, 20);
    if (starved)
      r.nontrivial();
  }
};

void
exec(const Plan& p, Run& r)
{
  warm_up();
  Sim s{ r };
  s.run(p);
}

Plan
gen(Rng& g, bool thorough)
{
  Plan p;
  for (int n = (int)g.range(4, thorough ? 50 : 25); n > 0; n--) {
    int64_t nth = 0, st = g.range(0, 1), seed = (int64_t)(g.next() >> 1);
    auto arm = [&](double pr, int64_t hi) { nth = g.chance(pr) ? (g.chance(0.6) ? g.range(1, 8) : g.range(1, hi)) : 0; };
    if (g.chance(0.0008)) {
      arm(0.3, 300000);
      p.add("huge", { 2, 0, 0, nth, st, seed, g.range(0, 1), g.range(0, 499) });
      continue;
    }
    int64_t kind = g.chance(0.6) ? 2 : g.range(0, 2), k = g.range(0, 2), j = g.range(0, 2);
    switch (g.below(10)) {
      case 0:
      case 1:
      case 2:
        arm(0.35, 1500);
        p.add("new", { kind, k, j, nth, st, seed, g.range(0, 7), g.chance(0.6) ? g.range(0, 4) : (int64_t)(g.next() >> 1), g.chance(0.6) ? g.range(0, 4) : (int64_t)(g.next() >> 1), g.chance(0.6) ? g.range(0, 3) : (int64_t)(g.next() >> 1), g.range(0, 3) });
        break;
      case 3:
      case 4:
        arm(0.6, 200);
        p.add("assign", { kind, k, j, nth, st, seed });
        break;
      case 5:
        if (g.chance(0.5)) {
          arm(0.5, 200);
          p.add("copy", { kind, k, j, nth, st, seed });
        } else if (g.chance(0.5))
          p.add("swap", { kind, k, j, 0, 0, seed });
        else if (g.chance(0.5))
          p.add("move", { kind, k, j, 0, 0, seed, g.range(0, 1) });
        else {
          arm(0.5, 3);
          p.add("slice", { 0, k, j, nth, st, seed });
        }
        break;
      default:
        arm(0.5, 300);
        p.add("ask", { kind, k, j, nth, st, seed, g.range(0, 12) });
    }
  }
  return p;
}
}

const sim::CheckDef&
sim::check()
{
  static CheckDef d;
  d.property = "C15";
  d.rule = "Each run builds grids (up to four dimensions, up to 2^40 sites), Bravais lattices and lattices (the predefined types and twelve others, in one to four dimensions, skewed and centred ones included; open and closed, elongated ones and now and then one with some 65536 sites included), assigns, copies, swaps and moves them among three slots each and asks them questions, while allocations fail at chosen points. Every answer is compared with an independent model (minimum images by exact integer arithmetic, or by a search over every image inside a sphere); after every assignment, failed or not, target and source answer a set of questions. Failed constructions and copies must leave no allocation behind. Non-trivial: an operation ran out of memory.";
  d.state_measure = "(sites and types in all slots, starved operations)";
  d.real = { "bwsl/Lattice.hpp", "bwsl/HyperCubicGrid.hpp", "bwsl/Bravais.hpp", "bwsl/MathUtils.hpp", "bwsl/Pairs.hpp" };
  d.stub = { "operator new (failure injection)" };
  d.assumptions = { "mapped sites are asked for only where they are on the grid", "among equally short images any may be reported", "winding numbers are asked for whole windings", "momenta are undefined with open boundaries", "pair indices are asked for up to 2^32 sites" };
  d.must_fire = { "out-of-memory", "query-starved", "assignment-starved", "assigned", "self-assignment", "lattice-built", "lattice-construction-starved", "basis-of-its-own", "more-than-65536-sites" };
  d.quick_runs = 8000;
  d.thorough_runs = 150000;
  d.generate = gen;
  d.execute = exec;
  return d;
}
