// What callers do with the library: a program of numbered operations over shared
// constant objects and objects of their own; every operation tells all it was
// answered. Used by the checks of what may influence those answers.
#pragma once
#include "common.hpp"
#include <boost/serialization/map.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>
#include <bwsl/Accumulators.hpp>
#include <bwsl/Approx.hpp>
#include <bwsl/Bravais.hpp>
#include <bwsl/EnumString.hpp>
#include <bwsl/Exceptions.hpp>
#include <bwsl/FileUtils.hpp>
#include <bwsl/HistAccumulator.hpp>
#include <bwsl/HyperCubicGrid.hpp>
#include <bwsl/Lattice.hpp>
#include <bwsl/LinSpace.hpp>
#include <bwsl/LogSpace.hpp>
#include <bwsl/MathUtils.hpp>
#include <bwsl/MonteCarloUtils.hpp>
#include <bwsl/ObservableGroup.hpp>
#include <bwsl/accumulators/NaiveIntegerAccumulator.hpp>
#include <bwsl/Pairs.hpp>
#include <bwsl/RNGUtils.hpp>
#include <bwsl/RationalNum.hpp>
#include <memory>
#include <random>

BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Colour, (Red)(Green)(Blue)(Violet))

namespace {
using namespace chk;
using namespace bwsl;
using bwsl::montecarlo::MoveResult;
using bwsl::montecarlo::MoveStats;
namespace acc = bwsl::accumulators;
using Grid = HyperCubicGrid;

constexpr unsigned kOps = 40;

// ---------------------------------------------------------------- results
struct Out
{
  std::string text;
  void u(uint64_t v)
  {
    char b[24];
    snprintf(b, sizeof b, "%llx ", (unsigned long long)v);
    text += b;
  }
  void d(double v) { u(std::isnan(v) ? 0x7ff8ULL : (uint64_t)dbits(v)); }
  void s(const std::string& v)
  {
    text += v;
    text += ' ';
  }
  template<class V>
  void v(const V& x)
  {
    for (auto const& e : x)
      if constexpr (std::is_floating_point<typename V::value_type>::value)
        d(e);
      else
        u((uint64_t)e);
  }
};

const Bravais&
bravais(unsigned k)
{
  switch (k % 4) {
    case 0:
      return ChainLattice;
    case 1:
      return SquareLattice;
    case 2:
      return TriangularLattice;
    default:
      return CubicLattice;
  }
}
std::vector<size_t>
extent(unsigned k, uint64_t seed)
{
  std::vector<size_t> n(bravais(k).GetDim());
  for (auto& x : n) {
    x = 1 + seed % (n.size() == 1 ? 9 : n.size() == 2 ? 4 : 3);
    seed /= 9;
  }
  return n;
}
Grid::boundaries_t
bounds(uint64_t b)
{
  return b & 1 ? Grid::boundaries_t::Open : Grid::boundaries_t::Closed;
}

// ---------------------------------------------------------------- objects
struct Objects
{
  std::unique_ptr<Grid> grid[3];
  std::unique_ptr<Lattice> lat[3];
  acc::KahanAccumulator kahan;
  acc::NeumaierAccumulator neu;
  acc::KnuthWelfordAccumulator kw;
  acc::WestAccumulator west;
  NaiveInteger naive;
  std::unique_ptr<HistAccumulator> hist;
  std::unique_ptr<MoveStats> stats;
  std::unique_ptr<ObservableGroup<int>> group;
  RationalLong rat[3];
  std::mt19937 rng;
  std::mt19937_64 rng64;
  std::vector<double> weights, psums;
  std::vector<double> occupation;
  std::unique_ptr<montecarlo::exception::MoveInvalidSequence> ex1;
  std::unique_ptr<montecarlo::exception::InvalidProbability> ex2;
  std::unique_ptr<EnumStringConversionFailed_Colour> ex3;
  MoveResult result[3];
  Approx approx{ 1.0 };
  std::string file;
  uint64_t nfile = 0;

  Objects(uint64_t seed, std::string f)
    : approx(1.0 + (double)(seed % 7))
    , file(std::move(f))
  {
    Rng g(seed);
    for (int i = 0; i < 3; i++) {
      unsigned k = (unsigned)g.below(4);
      auto s = g.next() >> 1;
      auto b = g.chance(0.35) ? Grid::boundaries_t::Open : Grid::boundaries_t::Closed;
      grid[i] = std::make_unique<Grid>(extent(k, s), b);
      k = (unsigned)g.below(4);
      lat[i] = std::make_unique<Lattice>(bravais(k), extent(k, g.next() >> 1), b);
    }
    hist = std::make_unique<HistAccumulator>(1 + g.below(6));
    stats = std::make_unique<MoveStats>("move" + std::to_string(g.below(100)) + (g.chance(0.5) ? " with a long name, beyond any small buffer" : ""));
    std::vector<int> keys;
    for (int i = 0, n = 1 + (int)g.below(4); i < n; i++)
      keys.push_back((int)g.below(9));
    group = std::make_unique<ObservableGroup<int>>(file + "g.csv", keys);
    for (int i = 0, n = 2 + (int)g.below(8); i < n; i++) {
      double x = value(g, (int)g.below(8));
      kahan.Add(x);
      neu.Add(x);
      kw.Add(x);
      west.Add(x, 0.25 + g.unit());
      naive.Add(g.range(-9, 9));
      hist->Add(g.below(hist->GetNbins()), x);
      stats->Add(g.chance(0.4)   ? MoveResult::Accept(g.unit())
                 : g.chance(0.5) ? MoveResult::Reject(g.unit())
                                 : MoveResult::Impossible());
      group->Measure(keys[g.below(keys.size())], x);
    }
    for (auto& r : rat)
      r = RationalLong(g.range(1, 40), g.range(1, 40));
    rng.seed((unsigned)g.next());
    rng64.seed(g.next());
    for (int i = 0, n = 2 + (int)g.below(6); i < n; i++) {
      weights.push_back(g.chance(0.3) ? 0.0 : g.unit());
      psums.push_back(0);
    }
    weights[g.below(weights.size())] = 0.5;
    double t = 0;
    for (size_t i = 0; i < weights.size(); i++)
      psums[i] = t += weights[i];
    for (int i = 0; i < 64; i++)
      occupation.push_back((double)g.below(3));
    ex1 = std::make_unique<montecarlo::exception::MoveInvalidSequence>("cluster " + std::to_string(g.below(50)));
    ex2 = std::make_unique<montecarlo::exception::InvalidProbability>(1.0 + g.unit());
    ex3 = std::make_unique<EnumStringConversionFailed_Colour>("colour" + std::to_string(g.below(50)));
    result[0] = MoveResult::Accept(g.unit());
    result[1] = MoveResult::Reject(g.unit());
  }
};

const char* const kNames[kOps] = { "grid queries",
                                   "grid pairs and jumps",
                                   "lattice vectors",
                                   "lattice neighbours",
                                   "lattice momenta",
                                   "structure factor",
                                   "bravais queries",
                                   "accumulator queries",
                                   "histogram queries",
                                   "move statistics queries",
                                   "rationals",
                                   "shared generator saved",
                                   "choices",
                                   "texts of shared exceptions",
                                   "enum conversions",
                                   "approximate comparisons",
                                   "own accumulators",
                                   "own histogram",
                                   "own move statistics",
                                   "own lattice built",
                                   "own lattice assigned",
                                   "own archives",
                                   "own group printed",
                                   "own tables saved",
                                   "files compared",
                                   "rational text",
                                   "sequences",
                                   "mathematics",
                                   "shared accumulators archived",
                                   "shared objects copied",
                                   "failing conversions",
                                   "own generator restored",
                                   "search",
                                   "failed writes",
                                   "temporary objects",
                                   "unwritable files",
                                   "temporary weights",
                                   "shared group header",
                                   "default objects",
                                   "objects made and dropped" };

/// Takes some bytes, then no more
struct Full : std::streambuf
{
  long left;
  explicit Full(long n)
    : left(n)
  {
  }
  int overflow(int c) override { return left-- > 0 ? (c == traits_type::eof() ? 0 : c) : traits_type::eof(); }
};
template<class T>
void
archive(std::ostream& os, int format, const T& x)
{
  if (format == 0) {
    boost::archive::text_oarchive a(os);
    a << x << x;
  } else {
    boost::archive::binary_oarchive a(os);
    a << x << x;
  }
}

template<class A>
void
ask(Out& o, const A& a)
{
  o.u(a.Count());
  o.d((double)a.Sum());
  o.d(a.Mean());
}

/// A site; often the first one, which every lattice has
size_t
site(Rng& g, size_t n)
{
  return g.chance(0.35) ? 0 : g.below(n);
}

void
perform(unsigned op, const Objects& sh, Objects& own, Rng g, Out& o)
{
  // most questions go to the shared objects
  const Objects& q = g.chance(0.75) ? sh : own;
  auto const& grid = *q.grid[g.below(3)];
  auto const& lat = *q.lat[g.below(3)];
  switch (op % kOps) {
    case 0:
      for (int i = 0; i < 3; i++) {
        auto a = site(g, grid.GetNumSites()), b = site(g, grid.GetNumSites());
        o.v(grid.GetCoordinates(a));
        o.u(grid.GetIndex(grid.GetCoordinates(b)));
        if (grid.HasClosedBoundaries()) {
          auto m = grid.GetMappedSite(a, b);
          o.u(m);
          o.u(grid.GetUnMappedSite(m, a));
        }
        auto c = grid.GetCoordinates(a);
        c[0] += g.range(-9, 9);
        o.u(grid.IsOnGrid(c));
        grid.EnforceBoundaries(c);
        o.v(c);
      }
      break;
    case 1:
      for (int i = 0; i < 3; i++) {
        auto a = site(g, grid.GetNumSites()), b = site(g, grid.GetNumSites());
        auto p = grid.GetPairIndex(a, b);
        auto r = grid.GetIndividualIndices(p);
        o.u(p);
        o.u(r.first);
        o.u(r.second);
        o.v(grid.GetJump(a, b));
        o.u(grid.GetDim());
        o.v(grid.GetSize());
        o.u(grid.IndexIsValid(p));
        o.u(grid.GetGrid().GetNumSites());
      }
      break;
    case 2:
      for (int i = 0; i < 3; i++) {
        auto a = site(g, lat.GetNumSites()), b = site(g, lat.GetNumSites());
        o.d(lat.GetDistance(a, b));
        o.v(lat.GetVector(a, b));
        o.v(lat.GetPosition(b));
        auto w = lat.GetCoordinates(a);
        o.v(lat.GetWinding(w));
        w[0] += g.range(-7, 7);
        lat.EnforceBoundaries(w);
        o.v(w);
      }
      break;
    case 3:
      for (int i = 0; i < 3; i++) {
        auto a = site(g, lat.GetNumSites()), b = site(g, lat.GetNumSites());
        o.v(lat.GetNeighbors(a));
        o.u(lat.AreNeighbors(a, b));
        o.u(lat.GetCoordination(b));
        o.u(lat.GetCoordination());
      }
      break;
    case 4:
      if (lat.HasClosedBoundaries())
        for (int i = 0; i < 3; i++)
          o.v(lat.GetMomentum(g.below(lat.GetNumSites())));
      break;
    case 5: {
      std::vector<double> n(q.occupation.begin(), q.occupation.begin() + std::min<long>(64, (long)lat.GetNumSites()));
      n.resize(lat.GetNumSites());
      o.v(lat.ComputeSk(n, g.chance(0.5) ? 1.0 : 0.5));
      auto sk = std::vector<double>(lat.GetNumSites(), 1.0);
      lat.AccumulateSk(n, sk);
      o.v(sk);
      break;
    }
    case 6: {
      auto const& b = bravais((unsigned)g.below(4));
      auto x = Bravais::coords_t(b.GetDim()), y = x;
      for (auto& e : x)
        e = g.range(-4, 4);
      for (auto& e : y)
        e = g.range(-4, 4);
      o.v(b.GetRealSpace(x));
      o.v(b.GetInverseVector(b.GetRealSpace(y)));
      o.v(b.GetReciprocalSpace(x));
      o.v(b.GetVector(x, y));
      o.d(b.GetDistance(x, y));
      o.d(b.GetDistanceVector(y, x).first);
      o.v(b.GetNeighbor(x, g.below(b.GetGamma())));
      break;
    }
    case 7:
      ask(o, q.kahan);
      ask(o, q.neu);
      ask(o, q.kw);
      ask(o, q.west);
      ask(o, q.naive);
      o.d(q.kw.Variance(true));
      o.d(q.kw.ScaledVariance());
      o.d(q.kw.StandardDeviation(false));
      o.d(q.kw.Error(true));
      o.d(q.west.PopulationVariance());
      o.d(q.west.SampleFrequencyVariance());
      o.d(q.west.SampleReliabilityVariance());
      o.d(q.naive.Variance(true));
      o.d(q.naive.ScaledVariance());
      o.d(q.naive.StandardDeviation(false));
      break;
    case 8: {
      auto const& h = *q.hist;
      o.v(h.GetResults());
      auto i = g.below(h.GetNbins());
      o.d(h.GetResult(i));
      o.v(h.GetResults(i));
      o.u(h.GetCount());
      o.u(h.GetCount(i));
      o.u(h.GetNbins());
      break;
    }
    case 9: {
      auto const& s = *q.stats;
      o.d(s.GetAcceptedRatio());
      o.d(s.GetRejectedRatio());
      o.d(s.GetImpossibleRatio());
      o.d(s.GetAverageProbability());
      o.s(s.GetName());
      std::ostringstream os;
      os.imbue(std::locale::classic());
      os << s;
      o.s(os.str());
      auto const& m = q.result[g.below(3)];
      o.u(m.IsAccepted() + 2 * m.IsRejected() + 4 * m.IsImpossible());
      o.d(m.Probability());
      break;
    }
    case 10: {
      auto const &a = q.rat[g.below(3)], &b = sh.rat[g.below(3)];
      for (auto const& r : { a + b, a - b, a * b, a / b, a + 2L, 3L - b, 2L * a, a / 5L, 7L / b }) {
        o.u((uint64_t)r.GetNum());
        o.u((uint64_t)r.GetDen());
      }
      o.u((a < b) + 2 * (a == b) + 4 * (a >= b) + 8 * (a != b));
      o.u(a.IsInt());
      o.u((a < 1L) + 2 * (1L < a) + 4 * (a <= b) + 8 * (a > b));
      break;
    }
    case 11:
      o.u(sim::hstr(save(q.rng, (int)g.below(2))));
      o.u(sim::hstr(save(q.rng64, (int)g.below(2))));
      break;
    case 12:
      for (int i = 0; i < 4; i++) {
        o.u(choose_between(q.weights, own.rng));
        o.u(choose_between_psums(q.psums, own.rng64));
        o.u(choose_with_probability(0.25 * (double)g.below(5), own.rng));
      }
      break;
    case 13:
      o.s(q.ex1->what());
      o.s(q.ex2->what());
      o.s(q.ex3->what());
      {
        auto c = *q.ex1;
        auto d = *q.ex2;
        o.s(c.what());
        o.s(d.what());
      }
      o.s(exception::BadParsing{}.what());
      break;
    case 14: {
      auto c = Colour{ Red };
      FromString(c, (const char* [4]){ "Red", "Green", "Blue", "Violet" }[g.below(4)]);
      o.u((uint64_t)c);
      o.s(ToString(c));
      o.s(ToString((Colour)g.below(4)));
      break;
    }
    case 15: {
      double x = 1.0 + (double)g.below(7);
      auto const& a = q.approx;
      o.u((a == x) + 2 * (x == a) + 4 * (a != x) + 8 * (x <= a) + 16 * (a >= x));
      auto b = Approx(x);
      b.SetAbs(0.5).SetRel(1e-3);
      o.u(b == x + 0.4);
      break;
    }
    case 16: {
      for (int i = 0, n = 1 + (int)g.below(4); i < n; i++) {
        double x = value(g, (int)g.below(8));
        own.kahan.Add(x);
        own.neu.Add(x);
        own.kw.Add(x);
        own.west.Add(x, g.unit());
        own.naive.Add(g.range(-9, 9));
      }
      if (g.chance(0.1)) {
        own.kahan.Reset();
        own.neu.Reset();
        own.kw.Reset();
        own.west.Reset();
        own.naive.Reset();
        own.kahan.Add(1);
      }
      ask(o, own.kahan);
      ask(o, own.neu);
      ask(o, own.kw);
      ask(o, own.west);
      ask(o, own.naive);
      break;
    }
    case 17: {
      auto& h = *own.hist;
      h.Add(g.below(h.GetNbins()), value(g, (int)g.below(8)));
      h.ForceAdd(g.below(h.GetNbins() + 3));
      if (h.GetNbins() > 12 || g.chance(0.1))
        h.Resize(1 + g.below(8));
      if (g.chance(0.1))
        h.Reset();
      o.u(h.GetNbins());
      o.u(h.GetCount());
      o.v(h.GetResults());
      break;
    }
    case 18: {
      auto& s = *own.stats;
      try {
        for (int i = 0; i < 3; i++)
          switch (g.below(5)) {
            case 0:
              s.Propose();
              break;
            case 1:
              s.Accept(g.unit());
              break;
            case 2:
              s.Reject(g.unit());
              break;
            case 3:
              s.Impossible();
              break;
            default:
              s.Add(q.result[g.below(3)]);
          }
      } catch (const std::exception& e) {
        o.s(e.what());
      }
      if (g.chance(0.1))
        s.Reset();
      o.d(s.GetAcceptedRatio());
      o.d(s.GetAverageProbability());
      break;
    }
    case 19: {
      unsigned k = (unsigned)g.below(4);
      auto size = extent(k, g.next() >> 1);
      if (g.chance(0.6)) {
        // lattices of as many sites that differ otherwise
        static const size_t two[4][2] = { { 2, 6 }, { 6, 2 }, { 3, 4 }, { 4, 3 } };
        static const size_t three[4][3] = { { 2, 2, 3 }, { 3, 2, 2 }, { 1, 4, 3 }, { 2, 6, 1 } };
        auto i = g.below(4);
        size = size.size() == 1 ? std::vector<size_t>{ 12 } : size.size() == 2 ? std::vector<size_t>(two[i], two[i] + 2) : std::vector<size_t>(three[i], three[i] + 3);
      }
      auto l = Lattice(bravais(k), size, bounds(g.below(4) ? 0 : 1));
      for (int i = 0; i < 3; i++) {
        auto a = site(g, l.GetNumSites()), b = site(g, l.GetNumSites());
        o.d(l.GetDistance(a, b));
        o.v(l.GetVector(a, b));
        o.v(l.GetPosition(a));
        o.v(l.GetNeighbors(a));
        o.u(l.AreNeighbors(a, b));
        o.v(l.GetJump(a, b));
        o.u(l.GetPairIndex(a, b));
        if (l.HasClosedBoundaries()) {
          o.v(l.GetMomentum(b));
          o.u(l.GetMappedSite(a, b));
        }
      }
      std::vector<double> n;
      for (size_t i = 0; i < l.GetNumSites(); i++)
        n.push_back((double)g.below(3));
      o.v(l.ComputeSk(n));
      break;
    }
    case 20: {
      auto i = g.below(3), k = g.below(3);
      if (g.chance(0.5))
        *own.lat[i] = *sh.lat[k];
      else
        *own.grid[i] = *sh.lat[k];
      auto const& l = *own.lat[i];
      auto a = g.below(l.GetNumSites());
      o.v(l.GetPosition(a));
      o.v(own.grid[i]->GetSize());
      break;
    }
    case 21: {
      int f = (int)g.below(2);
      auto k = own.kahan;
      load(k, save(own.kahan, f), f);
      ask(o, k);
      HistAccumulator h(1);
      load(h, save(*own.hist, f), f);
      o.v(h.GetResults());
      MoveStats m("m");
      load(m, save(*own.stats, f), f);
      o.d(m.GetAverageProbability());
      ObservableGroup<int> gr;
      load(gr, save(*own.group, f), f);
      o.u(sim::hstr(save(gr, f)));
      break;
    }
    case 22:
      if (own.nfile++ % 3 == 0)
        own.group->PrintHeaders();
      own.group->AddObservable(3).Measure(3, g.unit());
      own.group->PrintAndReset(1 + g.below(17));
      o.u(sim::hstr(sim::fs::get(own.file + "g.csv")));
      break;
    case 23: {
      auto f = own.file + "t.csv";
      switch (g.below(4)) {
        case 0:
          lat.SavePositions(f);
          break;
        case 1:
          lat.SaveDistances(f);
          break;
        case 2:
          lat.SaveMomenta(f);
          break;
        default:
          own.lat[0]->SavePairs(f);
      }
      o.u(sim::hstr(sim::fs::get(f)));
      break;
    }
    case 24:
      o.u(compare_files("/simfs/a", "/simfs/b"));
      o.u(compare_files("/simfs/a", "/simfs/c"));
      o.u(compare_files("/simfs/a", "/simfs/missing"));
      break;
    case 25: {
      std::stringstream s;
      s.imbue(std::locale::classic());
      s << q.rat[g.below(3)] << ' ' << sh.rat[g.below(3)];
      RationalLong a, b;
      s >> a >> b;
      o.u((uint64_t)a.GetNum());
      o.u((uint64_t)b.GetDen());
      RationalLong c;
      FromString("12//" + std::to_string(1 + g.below(30)), c);
      o.u((uint64_t)c.GetDen());
      o.s(ToString(q.rat[g.below(3)]));
      o.s(ToString(c));
      break;
    }
    case 26: {
      auto l = LinSpace<double>(0.0, 1.0 + g.unit(), 1 + g.below(6));
      o.v(l.Collect(4));
      o.d(*l.begin());
      o.d(*l.end());
      for (auto x : l)
        o.d(x);
      o.d(l());
      o.d(*l++);
      o.d(*l);
      auto e = LogSpace<double>(1.0, 10.0 + g.unit(), 1 + g.below(6));
      o.v(e.Collect(4));
      ++e;
      o.d(*e);
      o.d(*e.end());
      auto p = LogSpace<double>(g.range(-4, 0), g.range(1, 4), 1 + g.below(9), g.chance(0.5) ? 10.0 : 2.0);
      o.v(p.Collect(4));
      o.d(*p.end());
      break;
    }
    case 27: {
      std::vector<long> x{ 3, -4, (long)g.below(9) };
      o.d(cbinomial(10L + (long)g.below(5), (long)g.below(9)));
      o.u((uint64_t)get_gcd(g.range(1, 99), g.range(1, 99)));
      o.u((uint64_t)accumulate_product(x));
      o.u((uint64_t)accumulate_sum(x));
      o.d(l2norm(std::vector<double>{ 1.5, g.unit() }));
      o.u((uint64_t)sgn(x[2] - 4));
      o.d(lerp(1.0, 2.0, g.unit()));
      o.d(heaviside(g.unit() - 0.5));
      o.d(heaviside2(0.0));
      o.u((uint64_t)bwsl::max(x));
      o.u((uint64_t)bwsl::min(x));
      o.v(get_inverted(x));
      o.v(sum_into(x, std::vector<long>{ 1, 2, 3 }));
      o.v(subtract_into(x, std::vector<long>{ 3, 2, (long)g.below(5) }));
      o.v(invert(x));
      o.u((uint64_t)(absdiff(5UL, g.below(9)) + (unsigned long)square(3L) + (unsigned long)cube(2L)));
      o.d(lerpi(1, 4, 0.5, g.unit()));
      auto const dims = std::vector<size_t>{ 3, 4, 5 };
      auto const at = index_to_array<std::vector<long>, std::vector<size_t>>(g.below(60), dims);
      o.v(at);
      o.u(array_to_index(at, dims));
      break;
    }
    case 28: {
      int f = (int)g.below(2);
      o.u(sim::hstr(save(sh.kahan, f)));
      o.u(sim::hstr(save(sh.neu, f)));
      o.u(sim::hstr(save(sh.kw, f)));
      o.u(sim::hstr(save(sh.west, f)));
      o.u(sim::hstr(save(sh.naive, f)));
      o.u(sim::hstr(save(*sh.hist, f)));
      o.u(sim::hstr(save(*sh.stats, f)));
      o.u(sim::hstr(save(*sh.group, f)));
      break;
    }
    case 29: {
      auto h = *sh.hist;
      h.ForceAdd(h.GetNbins(), 1.0);
      o.v(h.GetResults());
      auto l = *sh.lat[g.below(3)];
      o.v(l.GetPosition(l.GetNumSites() - 1));
      auto m = *sh.stats;
      m.Reset();
      o.d(m.GetAcceptedRatio());
      o.s(m.GetName());
      break;
    }
    case 30:
      try {
        auto c = Colour{ Green };
        FromString(c, "colour" + std::to_string(g.below(1000)) + " of an unusual length for a name");
      } catch (const std::exception& e) {
        o.s(e.what());
      }
      try {
        RationalLong r;
        FromString("1/2", r);
      } catch (const std::exception& e) {
        o.s(e.what());
      }
      try {
        montecarlo::exception::InvalidProbability e(2.0 + g.unit());
        throw e;
      } catch (const std::exception& e) {
        o.s(e.what());
      }
      try {
        own.group->Measure(777, 1.0);
      } catch (const std::exception& e) {
        o.s("refused");
      }
      break;
    case 31: {
      int f = (int)g.below(2);
      auto s = save(g.chance(0.5) ? sh.rng : own.rng, f);
      std::mt19937 r;
      load(r, s, f);
      for (int i = 0; i < 3; i++)
        o.u(r());
      if (f == 0) {
        try {
          load(own.rng, s.substr(0, s.size() / 2), 0);
        } catch (const std::exception&) {
          o.s("refused");
        }
        own.rng = r;
      }
      break;
    }
    case 32: {
      o.u((uint64_t)(bwsl::upper_bound(q.psums.begin(), q.psums.end(), g.unit()) - q.psums.begin()));
      o.u(pairs::GetPairIndex(3, 4, 9));
      o.u(pairs::GetPair(g.below(81), 9).first);
      break;
    }
    case 33: {
      // what a failed save leaves behind must not reach the next one
      Full full((long)g.below(2500));
      std::ostream os(&full);
      os.imbue(std::locale::classic());
      try {
        int f = (int)g.below(2);
        switch (g.below(6)) {
          case 0:
            archive(os, f, q.rng);
            break;
          case 1:
            archive(os, f, q.rng64);
            break;
          case 2:
            archive(os, f, *q.group);
            break;
          case 3:
            archive(os, f, *q.hist);
            break;
          case 4:
            archive(os, f, *q.stats);
            break;
          default:
            archive(os, f, q.west);
        }
        o.s("fits");
      } catch (const std::exception& e) {
        o.s("refused");
      }
      os.clear();
      os << q.rat[0] << *q.stats;
      o.u(os.good());
      int f = (int)g.below(2);
      o.u(sim::hstr(save(q.rng, f)));
      o.u(sim::hstr(save(q.rng64, f)));
      o.u(sim::hstr(save(*q.group, f)));
      std::ostringstream again;
      again.imbue(std::locale::classic());
      again << q.rat[0] << *q.stats;
      o.s(again.str());
      break;
    }
    case 34: {
      acc::KahanAccumulator k;
      acc::NeumaierAccumulator n;
      acc::KnuthWelfordAccumulator w;
      acc::WestAccumulator x;
      NaiveInteger z;
      HistAccumulator h(1 + g.below(4));
      MoveStats m(g.chance(0.5) ? "temporary" : "another temporary object with a long name");
      ObservableGroup<int> t(own.file + "t.csv", { (int)g.below(4), 4 });
      for (int i = 0, c = 1 + (int)g.below(4); i < c; i++) {
        double v = value(g, (int)g.below(8));
        k.Add(v);
        n.Add(v);
        w.Add(v);
        x.Add(v, 0.5 + g.unit());
        z.Add(g.range(-5, 5));
        h.ForceAdd(g.below(6), v);
        m.Propose();
        if (g.chance(0.5))
          m.Accept(g.unit());
        else
          m.Reject(g.unit());
        t.Measure(4, v);
      }
      if (g.chance(0.3))
        m.Propose(); // and never answered
      ask(o, k);
      ask(o, n);
      ask(o, w);
      ask(o, x);
      ask(o, z);
      o.d(w.Variance(true));
      o.d(x.SampleFrequencyVariance());
      o.v(h.GetResults());
      o.d(m.GetAcceptedRatio());
      o.d(m.GetAverageProbability());
      o.s(m.GetName());
      o.u(sim::hstr(save(t, 0)));
      if (g.chance(0.4)) {
        t.PrintHeaders();
        t.PrintAndReset(3 + g.below(9));
        o.u(sim::hstr(sim::fs::get(own.file + "t.csv")));
      }
      break;
    }
    case 35: {
      try {
        ObservableGroup<int> t("/simfs", { 1, 2 });
        t.Measure(1, g.unit());
        t.PrintAndReset(4);
        o.s("written");
      } catch (const std::exception&) {
        o.s("refused");
      }
      try {
        if (g.chance(0.5))
          lat.SavePositions("/simfs");
        else
          lat.SaveDistances("/simfs");
        o.s("written");
      } catch (const std::exception&) {
        o.s("refused");
      }
      lat.SavePositions(own.file + "p.csv");
      o.u(sim::hstr(sim::fs::get(own.file + "p.csv")));
      o.u(compare_files("/simfs/a", "/simfs"));
      o.u(compare_files("/simfs/a", own.file + "p.csv"));
      break;
    }
    case 36:
      for (int i = 0; i < 3; i++) {
        std::vector<double> w(2 + g.below(5)), c;
        for (auto& e : w)
          e = g.chance(0.3) ? 0.0 : g.unit();
        w[g.below(w.size())] += 0.5;
        double t = 0;
        for (auto e : w)
          c.push_back(t += e);
        for (int k = 0; k < 3; k++) {
          o.u(choose_between(w, own.rng));
          o.u(choose_between_psums(c, own.rng64));
        }
        std::vector<float> wf(w.begin(), w.end());
        o.u(choose_between(wf, own.rng));
        o.d(sum_squared<std::vector<double>, double>(w));
        o.u((uint64_t)signeddiff<unsigned, long>((unsigned)g.below(99), (unsigned)g.below(99)));
        acc::KahanAccumulator ka;
        o.d(apply_accumulator(w.begin(), w.end(), ka).Mean());
        o.u(pairs::GetNumPairs(g.below(1000)));
        o.u((uint64_t)montecarlo::MoveResult::Accept(g.unit()).GetStatus());
        o.u(grid.HasOpenBoundaries());
      }
      break;
    case 38: {
      // as they come, nothing set
      int f = (int)g.below(2);
      auto fresh = [&](auto* t) {
        std::unique_ptr<std::remove_pointer_t<decltype(t)>> p(t);
        o.u(sim::hstr(save(*p, f)));
      };
      fresh(new acc::KahanAccumulator);
      fresh(new acc::NeumaierAccumulator);
      fresh(new acc::KnuthWelfordAccumulator);
      fresh(new acc::WestAccumulator);
      fresh(new NaiveInteger);
      fresh(new HistAccumulator);
      fresh(new HistAccumulator(g.below(5)));
      fresh(new MoveStats);
      fresh(new ObservableGroup<int>);
      fresh(new ObservableGroup<std::string>);
      std::unique_ptr<acc::WestAccumulator> w(new acc::WestAccumulator);
      std::unique_ptr<acc::KnuthWelfordAccumulator> k(new acc::KnuthWelfordAccumulator);
      ask(o, *w);
      ask(o, *k);
      std::unique_ptr<RationalLong> r(new RationalLong);
      o.u((uint64_t)r->GetNum());
      o.u((uint64_t)r->GetDen());
      std::unique_ptr<MoveResult> m(new MoveResult);
      o.u(m->IsAccepted() + 2 * m->IsRejected() + 4 * m->IsImpossible());
      o.d(m->Probability());
      std::unique_ptr<Grid> h(new Grid);
      o.u(h->GetNumSites());
      o.u(h->GetDim());
      o.u(h->HasClosedBoundaries());
      std::unique_ptr<Lattice> l(new Lattice);
      o.u(l->GetNumSites());
      o.u(l->HasClosedBoundaries());
      std::unique_ptr<Bravais> b(new Bravais(bravais((unsigned)g.below(4))));
      o.u(b->GetDim());
      o.u(b->GetGamma());
      std::unique_ptr<Approx> a(new Approx(1.0));
      o.u((*a == 1.0 + 1e-15) + 2 * (*a == 1.1) + 4 * (*a == 1.0 + 1e-12));
      std::unique_ptr<LinSpace<double>> s(new LinSpace<double>(0.0, 1.0, 1 + g.below(5)));
      o.v(s->Collect(4));
      std::unique_ptr<LogSpace<double>> t(new LogSpace<double>(1.0, 8.0, 1 + g.below(5)));
      o.v(t->Collect(4));
      break;
    }
    case 39: {
      // many objects of many sizes come and go, among them copies and moved ones
      std::vector<std::unique_ptr<Lattice>> ls;
      std::vector<HistAccumulator> hs;
      std::vector<MoveStats> ms;
      std::vector<ObservableGroup<int>> gs;
      for (int i = 0, n = 2 + (int)g.below(5); i < n; i++) {
        unsigned k = (unsigned)g.below(4);
        ls.push_back(std::make_unique<Lattice>(bravais(k), extent(k, g.next() >> 1), bounds(g.below(4) ? 0 : 1)));
        if (g.chance(0.4))
          *ls[g.below(ls.size())] = *ls.back();
        hs.emplace_back(1 + g.below(6));
        hs[g.below(hs.size())].ForceAdd(g.below(9), g.unit());
        ms.emplace_back("m" + std::to_string(i));
        ms[g.below(ms.size())].Add(MoveResult::Accept(g.unit()));
        gs.push_back(*q.group);
        gs.back().AddObservable(3).Measure(3, g.unit());
        if (g.chance(0.3)) {
          ls.erase(ls.begin() + (long)g.below(ls.size()));
          hs.erase(hs.begin());
        }
        if (ls.empty())
          ls.push_back(std::make_unique<Lattice>(ChainLattice, std::vector<size_t>{ 3 }));
      }
      for (auto const& l : ls) {
        auto a = site(g, l->GetNumSites()), b = site(g, l->GetNumSites());
        o.v(l->GetVector(a, b));
        o.v(l->GetNeighbors(a));
        o.u(l->AreNeighbors(a, b));
        o.d(l->GetDistance(a, b));
        o.u(l->GetPairIndex(a, b));
        if (l->HasClosedBoundaries())
          o.v(l->GetMomentum(a));
        o.v(l->GetPosition(b));
        o.v(l->GetSize());
      }
      for (auto const& h : hs)
        o.v(h.GetResults());
      for (auto const& m : ms)
        o.d(m.GetAverageProbability());
      for (auto const& x : gs)
        o.u(sim::hstr(save(x, 0)));
      // numbers of more than three digits
      if (g.chance(0.3)) {
        auto const f = own.file + "t.csv";
        ObservableGroup<long> big(f, { -123456, 4096 + (long)g.below(9), 1000000 });
        for (int i = 0, n = 1000 + (int)g.below(300); i < n; i++)
          for (auto k : { -123456, 1000000 })
            big.Measure(k, 1234.5 + i);
        big.PrintHeaders();
        big.PrintAndReset(12);
        o.u(sim::hstr(sim::fs::get(f)));
      }
      if (g.chance(0.2)) {
        auto const f = own.file + "t.csv";
        auto l = Lattice(SquareLattice, { 5, 7 + g.below(3) });
        switch (g.below(4)) {
          case 0:
            l.SavePairs(f);
            break;
          case 1:
            l.SaveDistances(f);
            break;
          case 2:
            l.SaveMomenta(f);
            break;
          default:
            l.SavePositions(f);
        }
        o.u(sim::hstr(sim::fs::get(f)));
        o.s(ToString(RationalLong(1000000007, 123456)));
        RationalLong r;
        FromString("98765432//12345", r);
        o.u((uint64_t)r.GetNum());
        MoveStats m("many");
        for (int i = 0; i < 1500; i++)
          m.Add(MoveResult::Accept(0.5));
        std::ostringstream os;
        os.imbue(std::locale::classic());
        os << m;
        o.s(os.str());
      }
      break;
    }
    default:
      // asks the shared group (constant) for its header, which goes to a file
      // nobody else writes meanwhile
      if (own.file == "/simfs/own0")
        sh.group->PrintHeaders();
      o.u(sim::hstr(save(*sh.group, 0)));
  }
}

void
files()
{
  std::string big;
  for (int i = 0; i < 9000; i++)
    big += (char)('a' + i * 7 % 23);
  sim::fs::put("/simfs/a", big);
  sim::fs::put("/simfs/b", big);
  big[8500] = '!';
  sim::fs::put("/simfs/c", big);
}

void
one(const Step& s, const Objects& sh, Objects& own, std::string& result)
{
  Out o;
  try {
    perform((unsigned)((uint64_t)s.at(1) % kOps), sh, own, Rng((uint64_t)s.at(2)), o);
  } catch (const std::exception& e) {
    o.s("exception");
    o.s(e.what());
  }
  result.swap(o.text);
}
} // namespace
