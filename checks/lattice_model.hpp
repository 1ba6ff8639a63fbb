// An independent model of grids, Bravais lattices and lattices: what every
// query must answer.
#pragma once
#include "common.hpp"
#include <algorithm>
#include <bwsl/Bravais.hpp>
#include <bwsl/HyperCubicGrid.hpp>
#include <bwsl/Lattice.hpp>
#include <optional>

namespace chk {
using bwsl::Bravais;
using bwsl::HyperCubicGrid;
using bwsl::Lattice;
using coords = std::vector<long>;
using real = std::vector<double>;

/// What defines a Bravais lattice: basis vectors and steps to neighbours.
struct Basis
{
  size_t dim;
  std::vector<real> a;     // basis vectors
  std::vector<coords> hop; // one of each pair of neighbours
  std::vector<real> inv;   // inv[k] . x is coordinate k of x
  Basis(std::vector<real> vectors, std::vector<coords> hops)
    : dim(vectors.size())
    , a(std::move(vectors))
    , hop(std::move(hops))
  {
    // x_q = sum_k c_k a[k][q]: invert by elimination
    std::vector<real> m(dim, real(2 * dim));
    for (size_t q = 0; q < dim; q++) {
      for (size_t k = 0; k < dim; k++)
        m[q][k] = a[k][q];
      m[q][dim + q] = 1;
    }
    for (size_t c = 0; c < dim; c++) {
      size_t best = c;
      for (size_t q = c; q < dim; q++)
        if (std::fabs(m[q][c]) > std::fabs(m[best][c]))
          best = q;
      std::swap(m[c], m[best]);
      double f = m[c][c];
      for (auto& v : m[c])
        v /= f;
      for (size_t q = 0; q < dim; q++)
        if (q != c) {
          double g = m[q][c];
          for (size_t k = 0; k < 2 * dim; k++)
            m[q][k] -= g * m[c][k];
        }
    }
    for (size_t k = 0; k < dim; k++)
      inv.emplace_back(m[k].begin() + (long)dim, m[k].end());
  }
  Bravais make() const
  {
    real p, pi;
    coords n;
    for (auto& v : a)
      p.insert(p.end(), v.begin(), v.end());
    for (auto& v : inv)
      pi.insert(pi.end(), v.begin(), v.end());
    for (auto& v : hop)
      n.insert(n.end(), v.begin(), v.end());
    return Bravais(dim, 2 * hop.size(), p, pi, n);
  }
};

constexpr int kBravaisTypes = 16;
inline const Basis&
basis(int type)
{
  static const Basis b[kBravaisTypes] = {
    // the predefined ones
    { { { 1 } }, { { 1 } } },
    { { { 1, 0 }, { 0, 1 } }, { { 1, 0 }, { 0, 1 } } },
    { { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } }, { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } } },
    { { { 1, 0 }, { 0.5, std::sqrt(3.0) / 2 } }, { { 1, 0 }, { 0, 1 }, { 1, -1 } } },
    // others: rectangular, oblique, skewed, face centred, chain with second
    // neighbours, hypercubic, monoclinic, body centred
    { { { 1, 0 }, { 0, 2.5 } }, { { 1, 0 }, { 0, 1 } } },
    { { { 1, 0 }, { 0.3, 1.1 } }, { { 1, 0 }, { 0, 1 } } },
    { { { 1, 0.25 }, { 1.7, 1.1 } }, { { 1, 0 }, { 2, -1 } } },
    { { { 0, 0.5, 0.5 }, { 0.5, 0, 0.5 }, { 0.5, 0.5, 0 } }, { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { 1, -1, 0 }, { 1, 0, -1 }, { 0, 1, -1 } } },
    { { { 0.25 } }, { { 1 }, { 2 } } },
    { { { 1, 0, 0, 0 }, { 0, 1, 0, 0 }, { 0, 0, 1, 0 }, { 0, 0, 0, 1 } }, { { 1, 0, 0, 0 }, { 0, 1, 0, 0 }, { 0, 0, 1, 0 }, { 0, 0, 0, 1 } } },
    { { { 2, 0, 0 }, { 0, 1, 0 }, { 0.7, 0, 1.5 } }, { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } } },
    { { { -0.5, 0.5, 0.5 }, { 0.5, -0.5, 0.5 }, { 0.5, 0.5, -0.5 } }, { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { 1, 1, 1 } } },
    // in metres, in tiny units, left handed, of different lengths
    { { { 5.4e-10, 0 }, { 2.7e-10, 4.7e-10 } }, { { 1, 0 }, { 0, 1 } } },
    { { { 2.5e6, 0, 0 }, { 0.5e6, 3e6, 0 }, { 0, 0.25e6, 2e6 } }, { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } } },
    { { { 0, 1 }, { 1, 0.25 } }, { { 1, 0 }, { 0, 1 }, { 1, 1 } } },
    { { { 10, 0 }, { 0, 0.125 } }, { { 1, 0 }, { 0, 1 } } },
  };
  return b[type];
}

struct BravaisModel
{
  int type = 0;
  size_t dim() const { return basis(type).dim; }
  /// the length of the shortest basis vector
  double unit() const
  {
    double u = INFINITY;
    for (auto& v : basis(type).a) {
      double s = 0;
      for (double x : v)
        s += x * x;
      u = std::min(u, std::sqrt(s));
    }
    return u;
  }
  size_t gamma() const { return 2 * basis(type).hop.size(); }
  /// component q of basis vector k
  double a(size_t k, size_t q) const { return basis(type).a[k][q]; }
  double b(size_t k, size_t q) const { return 2 * M_PI * basis(type).inv[k][q]; }
  real point(const coords& c) const
  {
    real x(dim());
    for (size_t q = 0; q < dim(); q++)
      for (size_t k = 0; k < dim(); k++)
        x[q] += (double)c[k] * a(k, q);
    return x;
  }
  std::vector<coords> steps() const
  {
    std::vector<coords> v;
    for (auto& h : basis(type).hop) {
      v.push_back(h);
      v.push_back(h);
      for (auto& q : v.back())
        q = -q;
    }
    return v;
  }
  const Bravais& get() const
  {
    static const Bravais* b[] = { &bwsl::ChainLattice, &bwsl::SquareLattice, &bwsl::CubicLattice, &bwsl::TriangularLattice };
    static const std::vector<Bravais> own = [] {
      std::vector<Bravais> v;
      for (int t = 4; t < kBravaisTypes; t++)
        v.push_back(basis(t).make());
      return v;
    }();
    return type < 4 ? *b[type] : own[(size_t)type - 4];
  }
};

inline double
norm(const real& x)
{
  double s = 0;
  for (double v : x)
    s += v * v;
  return std::sqrt(s);
}

struct GridModel
{
  std::vector<size_t> size;
  bool closed = false;
  size_t sites() const
  {
    if (size.empty())
      return 0;
    size_t n = 1;
    for (auto s : size)
      n *= s;
    return n;
  }
  coords at(size_t i) const
  {
    coords c(size.size());
    for (size_t k = size.size(); k-- > 0;) {
      c[k] = (long)(i % size[k]);
      i /= size[k];
    }
    return c;
  }
  bool inside(const coords& c) const
  {
    for (size_t k = 0; k < c.size(); k++)
      if (c[k] < 0 || (size_t)c[k] >= size[k])
        return false;
    return true;
  }
  coords wrap(coords c) const
  {
    for (size_t k = 0; k < c.size(); k++) {
      long s = (long)size[k];
      c[k] = ((c[k] % s) + s) % s;
    }
    return c;
  }
  size_t index(const coords& c) const
  {
    size_t i = 0;
    for (size_t k = 0; k < c.size(); k++)
      i = i * size[k] + (size_t)c[k];
    return i;
  }
};

inline coords
minus(coords a, const coords& b)
{
  for (size_t k = 0; k < a.size(); k++)
    a[k] -= b[k];
  return a;
}

struct LatticeModel : GridModel
{
  BravaisModel b;
  /// shortest length over all periodic images of displacement d
  double shortest(const coords& d) const
  {
    if (b.type > 3)
      return searched(d);
    if (b.type != 3) {
      double s = 0;
      for (size_t k = 0; k < d.size(); k++) {
        long m = ((d[k] % (long)size[k]) + (long)size[k]) % (long)size[k];
        m = std::min(m, (long)size[k] - m);
        s += (double)(m * m);
      }
      return std::sqrt(s);
    }
    // |c1 a1 + c2 a2|^2 = c1^2 + c1 c2 + c2^2, an integer; for every row c2
    // the best c1 is next to -c2/2
    long best = -1, l0 = (long)size[0], l1 = (long)size[1];
    // the shortest is not longer than half of each period
    long reach = 3 * std::max(l0, l1) + 3;
    for (long c2 = d[1] - (d[1] + reach) / l1 * l1; c2 <= reach; c2 += l1) {
      long t = -c2 / 2 - d[0];
      long m = t / l0;
      for (long k = m - 2; k <= m + 2; k++) {
        long c1 = d[0] + k * l0;
        long q = c1 * c1 + c1 * c2 + c2 * c2;
        if (best < 0 || q < best)
          best = q;
      }
    }
    return std::sqrt((double)best);
  }
  /// the same, for any basis: all images inside of a sphere around the origin
  double searched(const coords& d) const
  {
    const size_t n = d.size();
    auto at = [&](const coords& m) {
      coords c = d;
      for (size_t k = 0; k < n; k++)
        c[k] += m[k] * (long)size[k];
      return norm(b.point(c));
    };
    // coordinate k of a vector of length r is at most r |b_k| / 2 pi
    coords lo(n), hi(n), m(n);
    for (size_t k = 0; k < n; k++)
      m[k] = -std::lround((double)d[k] / (double)size[k]);
    double best = at(m);
    for (size_t k = 0; k < n; k++) {
      real bk(n);
      for (size_t q = 0; q < n; q++)
        bk[q] = b.b(k, q) / (2 * M_PI);
      double reach = best * norm(bk) * (1 + 1e-9) + 1e-9; // in coordinates
      lo[k] = (long)std::ceil((-reach - (double)d[k]) / (double)size[k]);
      hi[k] = (long)std::floor((reach - (double)d[k]) / (double)size[k]);
      if (hi[k] < lo[k])
        lo[k] = hi[k] = m[k];
    }
    m = lo;
    while (true) {
      best = std::min(best, at(m));
      size_t k = 0;
      while (k < n && ++m[k] > hi[k]) {
        m[k] = lo[k];
        k++;
      }
      if (k == n)
        return best;
    }
  }
  /// is x a displacement d plus periods?
  bool congruent(const real& x, const coords& d) const
  {
    for (size_t k = 0; k < size.size(); k++) {
      double c = 0; // coordinate k of x
      for (size_t q = 0; q < x.size(); q++)
        c += x[q] * b.b(k, q) / (2 * M_PI);
      double n = (c - (double)d[k]) / (double)size[k];
      if (std::fabs(n - std::round(n)) > 1e-9)
        return false;
      if (!closed && std::fabs(c - (double)d[k]) > 1e-9)
        return false;
    }
    return true;
  }
  std::vector<size_t> neighbors(size_t i) const
  {
    std::vector<size_t> v;
    auto c = at(i);
    for (auto& s : b.steps()) {
      auto n = c;
      for (size_t k = 0; k < n.size(); k++)
        n[k] += s[k];
      if (closed)
        v.push_back(index(wrap(n)));
      else if (inside(n))
        v.push_back(index(n));
    }
    std::sort(v.begin(), v.end());
    return v;
  }
  real momentum(size_t i) const
  {
    auto c = at(i);
    real k(b.dim());
    for (size_t j = 0; j < c.size(); j++)
      for (size_t q = 0; q < k.size(); q++)
        k[q] += (double)(c[j] - (long)(size[j] / 2)) / (double)size[j] * b.b(j, q);
    return k;
  }
};

inline bool
close(const real& x, const real& y, double tol = 1e-11, double unit = 1)
{
  if (x.size() != y.size())
    return false;
  for (size_t i = 0; i < x.size(); i++)
    if (!(std::fabs(x[i] - y[i]) <= tol * (unit + std::fabs(y[i]))))
      return false;
  return true;
}

template<class V>
inline std::string
show(const V& v)
{
  std::string s = "(";
  for (auto& x : v) {
    char b[40];
    snprintf(b, sizeof b, "%s%.12g", s.size() > 1 ? "," : "", (double)x);
    s += b;
  }
  return s + ")";
}

/// Asks one question under failing allocations. Nothing: out of memory.
struct Asker
{
  Run& r;
  int64_t nth = 0;
  bool sticky = false;
  bool starved = false; // the last question ran out of memory
  template<class F>
  auto operator()(F f) -> std::optional<std::decay_t<decltype(f())>>
  {
    starved = false;
    std::optional<std::decay_t<decltype(f())>> res;
    uint64_t failed = 0;
    {
      sim::mem::Scope scope(nth, sticky);
      try {
        res.emplace(f());
      } catch (const std::bad_alloc&) {
        starved = true;
      }
      failed = sim::mem::failures();
    }
    if (failed)
      r.fault("out-of-memory");
    if (starved && !failed)
      r.fail("spurious", "a query ran out of memory although there was some");
    return res;
  }
};

inline void
ask_bravais(Asker& ask, const Bravais& x, const BravaisModel& m, Rng& g, int what = -1)
{
  auto& r = ask.r;
  auto c = [&] {
    coords v(m.dim());
    for (auto& q : v)
      q = g.range(-20, 20);
    return v;
  };
  auto u = c(), v = c();
  // points far out, close to each other or not; rounding grows with them
  double unit = m.unit(), iunit = 1 / m.unit(), one = 1;
  if (g.chance(0.15)) {
    long most = 0;
    for (size_t k = 0; k < u.size(); k++) {
      long o = (g.chance(0.5) ? 1 : -1) * ((1L << g.range(14, 45)) + g.range(-2, 2));
      u[k] += o;
      if (g.chance(0.7))
        v[k] += o;
      most = std::max({ most, std::labs(u[k]), std::labs(v[k]) });
    }
    const double f = 1 + 1e-3 * (double)most;
    unit *= f;
    iunit *= f;
    one = f;
  }
  auto d = m.point(minus(v, u));
  switch (what >= 0 ? what % 8 : (int)g.below(8)) {
    case 0:
      if (auto q = ask([&] { return x.GetDim(); }); q && *q != m.dim())
        r.fail("answer", "a Bravais lattice of dimension %zu says %zu", m.dim(), *q);
      if (auto q = ask([&] { return x.GetGamma(); }); q && *q != m.gamma())
        r.fail("answer", "a Bravais lattice with %zu neighbours says %zu", m.gamma(), *q);
      break;
    case 1:
      if (auto q = ask([&] { return x.GetRealSpace(u); }); q && !close(*q, m.point(u), 1e-11, unit))
        r.fail("answer", "the point %s of Bravais lattice %d is at %s, reported %s", show(u).c_str(), m.type, show(m.point(u)).c_str(), show(*q).c_str());
      break;
    case 2:
      {
        auto w = minus(v, u);
        real want(w.begin(), w.end());
        if (auto q = ask([&] { return x.GetInverseVector(d); }); q && !close(*q, want, 1e-10, one))
          r.fail("answer", "the coordinates of %s on Bravais lattice %d are %s, reported %s", show(d).c_str(), m.type, show(want).c_str(), show(*q).c_str());
      }
      break;
    case 3: {
      real want(m.dim());
      for (size_t q = 0; q < m.dim(); q++)
        for (size_t k = 0; k < m.dim(); k++)
          want[q] += (double)u[k] * m.b(k, q);
      if (auto q = ask([&] { return x.GetReciprocalSpace(u); }); q && !close(*q, want, 1e-11, iunit))
        r.fail("answer", "the reciprocal vector %s of Bravais lattice %d is %s, reported %s", show(u).c_str(), m.type, show(want).c_str(), show(*q).c_str());
      break;
    }
    case 4:
      if (auto q = ask([&] { return x.GetVector(u, v); }); q && !close(*q, d, 1e-11, unit))
        r.fail("answer", "the vector from %s to %s on Bravais lattice %d is %s, reported %s", show(u).c_str(), show(v).c_str(), m.type, show(d).c_str(), show(*q).c_str());
      break;
    case 5:
      if (auto q = ask([&] { return x.GetDistance(u, v); }); q && !(std::fabs(*q - norm(d)) <= 1e-11 * (unit + norm(d))))
        r.fail("answer", "the distance from %s to %s on Bravais lattice %d is %.12g, reported %.12g", show(u).c_str(), show(v).c_str(), m.type, norm(d), *q);
      break;
    case 6:
      if (auto q = ask([&] { return x.GetDistanceVector(u, v); }); q && !(close(q->second, d, 1e-11, unit) && std::fabs(q->first - norm(d)) <= 1e-11 * (unit + norm(d))))
        r.fail("answer", "the distance vector from %s to %s on Bravais lattice %d is %.12g %s, reported %.12g %s", show(u).c_str(), show(v).c_str(), m.type, norm(d), show(d).c_str(), q->first, show(q->second).c_str());
      break;
    default: {
      std::vector<coords> want = m.steps(), got;
      for (auto& s : want)
        for (size_t k = 0; k < s.size(); k++)
          s[k] += u[k];
      for (size_t k = 0; k < m.gamma(); k++) {
        auto q = ask([&] { return x.GetNeighbor(u, k); });
        if (!q)
          return;
        got.push_back(*q);
      }
      std::sort(want.begin(), want.end());
      std::sort(got.begin(), got.end());
      if (got != want)
        r.fail("answer", "the neighbours of %s on Bravais lattice %d are wrong", show(u).c_str(), m.type);
    }
  }
}

inline void
ask_grid(Asker& ask, const HyperCubicGrid& x, const GridModel& m, Rng& g, int what = -1)
{
  auto& r = ask.r;
  const size_t n = m.sites(), d = m.size.size();
  if (what < 0)
    what = (int)g.below(12);
  if (n == 0)
    what = what % 2;
  auto site = [&] { return n == 0 ? 0 : g.chance(0.2) ? (g.chance(0.5) ? n - 1 : 0) : (size_t)g.below(n); };
  size_t a = site(), b = site();
  auto ca = n ? m.at(a) : coords(), cb = n ? m.at(b) : coords();
  auto name = [&] { return show(m.size) + (m.closed ? " closed" : " open"); };
  switch (what % 12) {
    case 0:
      if (auto q = ask([&] { return x.GetDim(); }); q && *q != d)
        r.fail("answer", "the dimension of grid %s is reported as %zu", name().c_str(), *q);
      if (auto q = ask([&] { return x.GetNumSites(); }); q && *q != n)
        r.fail("answer", "the number of sites of grid %s is reported as %zu", name().c_str(), *q);
      break;
    case 1:
      if (auto q = ask([&] { return x.GetSize(); }); q && *q != m.size)
        r.fail("answer", "the size of grid %s is reported as %s", name().c_str(), show(*q).c_str());
      if (auto q = ask([&] { return x.HasClosedBoundaries(); }); q && *q != m.closed)
        r.fail("answer", "the boundaries of grid %s are reported as %s", name().c_str(), *q ? "closed" : "open");
      if (x.HasOpenBoundaries() == m.closed || (x.GetBoundaries() == HyperCubicGrid::boundaries_t::Closed) != m.closed)
        r.fail("answer", "the boundaries of grid %s are reported wrong", name().c_str());
      break;
    case 2:
      if (auto q = ask([&] { return x.GetCoordinates(a); }); q && *q != ca)
        r.fail("answer", "site %zu of grid %s is at %s, reported %s", a, name().c_str(), show(ca).c_str(), show(*q).c_str());
      break;
    case 3:
      if (auto q = ask([&] { return x.GetIndex(ca); }); q && *q != a)
        r.fail("answer", "site %s of grid %s has index %zu, reported %zu", show(ca).c_str(), name().c_str(), a, *q);
      break;
    case 4: {
      auto diff = minus(cb, ca);
      if (!m.closed && !m.inside(diff))
        break;
      auto want = m.index(m.wrap(diff));
      if (auto q = ask([&] { return x.GetMappedSite(a, b); }); q && *q != want)
        r.fail("answer", "on grid %s the pair %zu,%zu maps to site %zu, reported %zu", name().c_str(), a, b, want, *q);
      break;
    }
    case 5: {
      coords sum = ca;
      for (size_t k = 0; k < d; k++)
        sum[k] += cb[k];
      if (!m.closed && !m.inside(sum))
        break;
      auto want = m.index(m.wrap(sum));
      if (auto q = ask([&] { return x.GetUnMappedSite(a, b); }); q && *q != want)
        r.fail("answer", "on grid %s site %zu unmaps from %zu to %zu, reported %zu", name().c_str(), a, b, want, *q);
      break;
    }
    case 6: {
      coords c = ca;
      for (size_t k = 0; k < d; k++)
        c[k] += g.range(-3, 3) * (long)m.size[k];
      auto got = c;
      bool ok = ask([&] {
                  x.EnforceBoundaries(got);
                  return 0;
                }).has_value();
      auto want = m.closed ? ca : c;
      if (ok && got != want)
        r.fail("answer", "the boundaries of grid %s turn %s into %s, reported %s", name().c_str(), show(c).c_str(), show(want).c_str(), show(got).c_str());
      break;
    }
    case 7: {
      coords c = ca;
      if (g.chance(0.7))
        c[g.below(d)] += g.range(-2, 2) * (long)(g.chance(0.5) ? 1 : m.size[0]);
      if (auto q = ask([&] { return x.IsOnGrid(c); }); q && *q != m.inside(c))
        r.fail("answer", "%s is reported as %son grid %s", show(c).c_str(), *q ? "" : "not ", name().c_str());
      size_t i = g.chance(0.5) ? a : n + g.below(3);
      if (auto q = ask([&] { return x.IndexIsValid(i); }); q && *q != (i < n))
        r.fail("answer", "site %zu of grid %s is reported as %svalid", i, name().c_str(), *q ? "" : "not ");
      break;
    }
    case 8: {
      if (n > 0xffffffffull)
        break;
      auto p = ask([&] { return x.GetPairIndex(a, b); });
      if (!p)
        break;
      if (*p >= n * n)
        r.fail("answer", "the pair %zu,%zu of grid %s has index %zu", a, b, name().c_str(), *p);
      if (auto q = ask([&] { return x.GetIndividualIndices(*p); }); q && (q->first != a || q->second != b))
        r.fail("answer", "the pair %zu,%zu of grid %s comes back as %zu,%zu", a, b, name().c_str(), q->first, q->second);
      break;
    }
    case 9:
    case 10: {
      auto want = minus(cb, ca);
      if (m.closed)
        for (size_t k = 0; k < d; k++) {
          long s = (long)m.size[k];
          want[k] = ((want[k] % s) + s) % s;
          if (want[k] > s / 2)
            want[k] -= s;
        }
      if (auto q = ask([&] { return x.GetJump(a, b); }); q && *q != want)
        r.fail("answer", "the jump from %s to %s on grid %s is %s, reported %s", show(ca).c_str(), show(cb).c_str(), name().c_str(), show(want).c_str(), show(*q).c_str());
      break;
    }
    default: {
      // a grid of its own with the same answers
      auto c = ask([&] { return x.GetGrid(); });
      if (!c)
        break;
      if (c->GetSize() != m.size || c->GetDim() != d || c->GetNumSites() != n || c->HasClosedBoundaries() != m.closed)
        r.fail("answer", "the grid of a grid %s is different", name().c_str());
    }
  }
}

inline void
ask_lattice(Asker& ask, const Lattice& x, const LatticeModel& m, Rng& g, int what = -1)
{
  auto& r = ask.r;
  const size_t n = m.sites(), d = m.size.size();
  if (n == 0)
    return ask_grid(ask, x, m, g, what);
  if (what < 0)
    what = (int)g.below(13);
  auto site = [&] { return g.chance(0.2) ? (g.chance(0.5) ? n - 1 : 0) : (size_t)g.below(n); };
  size_t a = site(), b = site();
  auto ca = m.at(a), cb = m.at(b);
  auto name = [&] { return std::to_string(m.b.type) + show(m.size) + (m.closed ? " closed" : " open"); };
  switch (what % 13) {
    case 0:
    case 1:
      return ask_grid(ask, x, m, g);
    case 2:
      if (auto q = ask([&] { return x.GetPosition(a); }); q && !close(*q, m.b.point(ca), 1e-11, m.b.unit()))
        r.fail("answer", "site %zu of lattice %s is at %s, reported %s", a, name().c_str(), show(m.b.point(ca)).c_str(), show(*q).c_str());
      break;
    case 3:
    case 4: {
      auto dd = minus(cb, ca);
      double want = m.closed ? m.shortest(dd) : norm(m.b.point(dd));
      if (auto q = ask([&] { return x.GetVector(a, b); })) {
        if (q->size() != m.b.dim() || !m.congruent(*q, dd))
          r.fail("answer", "the vector from site %zu to %zu of lattice %s is reported as %s", a, b, name().c_str(), show(*q).c_str());
        if (std::fabs(norm(*q) - want) > 1e-10 * (m.b.unit() + want))
          r.fail("answer", "the vector from site %zu to %zu of lattice %s has length %.12g, reported %s of length %.12g", a, b, name().c_str(), want, show(*q).c_str(), norm(*q));
      }
      break;
    }
    case 5: {
      auto dd = minus(cb, ca);
      double want = m.closed ? m.shortest(dd) : norm(m.b.point(dd));
      if (auto q = ask([&] { return x.GetDistance(a, b); }); q && !(std::fabs(*q - want) <= 1e-10 * (m.b.unit() + want)))
        r.fail("answer", "the distance from site %zu to %zu of lattice %s is %.12g, reported %.12g", a, b, name().c_str(), want, *q);
      break;
    }
    case 6:
    case 7: {
      auto want = m.neighbors(a);
      if (auto q = ask([&] { return x.GetNeighbors(a); })) {
        std::sort(q->begin(), q->end());
        if (*q != want)
          r.fail("answer", "the neighbours of site %zu of lattice %s are %s, reported %s", a, name().c_str(), show(want).c_str(), show(*q).c_str());
      }
      if (auto q = ask([&] { return x.GetCoordination(a); }); q && *q != want.size())
        r.fail("answer", "site %zu of lattice %s has %zu neighbours, reported %zu", a, name().c_str(), want.size(), *q);
      break;
    }
    case 8: {
      auto w = m.neighbors(a);
      if (!w.empty() && g.chance(0.5))
        b = w[g.below(w.size())];
      bool want = std::find(w.begin(), w.end(), b) != w.end();
      if (auto q = ask([&] { return x.AreNeighbors(a, b); }); q && *q != want)
        r.fail("answer", "sites %zu and %zu of lattice %s are reported as %sneighbours", a, b, name().c_str(), *q ? "" : "not ");
      auto first = m.neighbors(0).size();
      if (auto q = ask([&] { return x.GetCoordination(); }); q && *q != first)
        r.fail("answer", "the coordination of lattice %s is %zu, reported %zu", name().c_str(), first, *q);
      break;
    }
    case 9:
      if (m.closed)
        if (auto q = ask([&] { return x.GetMomentum(a); }); q && !close(*q, m.momentum(a), 1e-11, 1 / m.b.unit()))
          r.fail("answer", "momentum %zu of lattice %s is %s, reported %s", a, name().c_str(), show(m.momentum(a)).c_str(), show(*q).c_str());
      break;
    case 10: {
      coords w(d), jumps(d);
      for (size_t k = 0; k < d; k++) {
        w[k] = g.range(-5, 5);
        jumps[k] = w[k] * (long)m.size[k];
      }
      if (auto q = ask([&] { return x.GetWinding(jumps); }); q && *q != w)
        r.fail("answer", "jumps %s on lattice %s wind %s times, reported %s", show(jumps).c_str(), name().c_str(), show(w).c_str(), show(*q).c_str());
      break;
    }
    case 11: {
      coords c = ca;
      if (m.closed)
        for (size_t k = 0; k < d; k++)
          c[k] += g.range(-3, 3) * (long)m.size[k];
      auto got = c;
      bool ok = ask([&] {
                  x.EnforceBoundaries(got);
                  return 0;
                }).has_value();
      if (ok && got != ca)
        r.fail("answer", "the boundaries of lattice %s turn %s into %s", name().c_str(), show(c).c_str(), show(got).c_str());
      break;
    }
    default: {
      if (n > (g.chance(0.03) ? 400 : 40))
        break;
      std::vector<double> occ(n), sk(n, 0.0), start(n);
      std::vector<int> iocc(n);
      for (size_t i = 0; i < n; i++) {
        iocc[i] = (int)g.range(0, 3);
        occ[i] = iocc[i];
        start[i] = (double)g.range(0, 5);
      }
      double mult = g.chance(0.5) ? 1.0 : 2.5;
      const bool ints = g.chance(0.5);
      if (!ints)
        for (auto& o : occ)
          o += g.unit();
      if (m.closed)
        for (size_t i = 0; i < n; i++) {
          auto k = m.momentum(i);
          double re = 0, im = 0;
          for (size_t j = 0; j < n; j++) {
            auto p = m.b.point(m.at(j));
            double ph = 0;
            for (size_t q = 0; q < p.size(); q++)
              ph += k[q] * p[q];
            re += std::cos(ph) * occ[j];
            im += std::sin(ph) * occ[j];
          }
          sk[i] = mult * (re * re + im * im) / (double)(n * n);
        }
      if (auto q = ask([&] { return ints ? x.ComputeSk(iocc, mult) : x.ComputeSk(occ, mult); }); q && !close(*q, sk, 1e-9))
        r.fail("answer", "the structure factor of lattice %s is %s, reported %s", name().c_str(), show(sk).c_str(), show(*q).c_str());
      auto acc = start;
      bool ok = ask([&] {
                  x.AccumulateSk(occ, acc, mult);
                  return 0;
                }).has_value();
      if (ok) {
        for (size_t i = 0; i < n; i++)
          start[i] += sk[i];
        if (!close(acc, start, 1e-9))
          r.fail("answer", "the accumulated structure factor of lattice %s is %s, reported %s", name().c_str(), show(start).c_str(), show(acc).c_str());
      }
    }
  }
}
} // namespace chk
