// C02: generator state survives a checkpoint; damaged state is refused.
#include "common.hpp"
#include <bwsl/RNGUtils.hpp>
#include <locale>

using namespace chk;

namespace {

/// A small engine of the same family: its whole state fits in a few lines, so
/// that damage reaches every byte of it.
using tiny_mt = std::mersenne_twister_engine<uint32_t, 32, 5, 2, 7, 0x9908b0dfUL, 11, 0xffffffffUL, 7, 0x9d2c5680UL, 15, 0xefc60000UL, 18, 1812433253UL>;

template<class G>
std::string
state(const G& g)
{
  std::ostringstream os;
  os.imbue(std::locale::classic());
  os << g;
  return os.str();
}

/// How some country writes numbers
struct Country : std::numpunct<char>
{
  char sep;
  std::string groups;
  Country(char c, std::string g)
    : sep(c)
    , groups(std::move(g))
  {
  }
  char do_thousands_sep() const override { return sep; }
  char do_decimal_point() const override { return sep == ',' ? '.' : ','; }
  std::string do_grouping() const override { return groups; }
};
void
travel(uint64_t where)
{
  static const char seps[] = { ',', '.', ' ', '\'', '-', '0' };
  static const char* const groups[] = { "\3", "\1", "\3\2", "\4" };
  if (where % 5 == 0)
    std::locale::global(std::locale::classic());
  else
    std::locale::global(std::locale(std::locale::classic(), new Country(seps[where / 5 % 6], groups[where / 30 % 4])));
}

template<class G>
void
must_equal(Run& r, const G& got, const G& want, uint64_t n, const char* what)
{
  G a = got, b = want;
  for (uint64_t k = 0; k < n; k++) {
    auto x = a(), y = b();
    r.mix((uint64_t)x);
    if (x != y)
      r.fail("sequence", "%s: value %llu after the restore is %llu, expected %llu", what, (unsigned long long)k, (unsigned long long)x, (unsigned long long)y);
  }
  if (!(got == want))
    r.fail("sequence", "%s: the restored generator differs from the saved one", what);
}

/// Replace the state text inside an archive, keeping its length field right.
bool
replace_text(std::string& ar, const std::string& was, const std::string& now, int fmt)
{
  auto at = ar.find(was);
  if (at == std::string::npos)
    return false;
  if (fmt & 1) {
    if (at < 8)
      return false;
    uint64_t len;
    memcpy(&len, ar.data() + at - 8, 8);
    if (len != was.size())
      return false;
    len = now.size();
    ar.replace(at, was.size(), now);
    memcpy(&ar[at - 8], &len, 8);
  } else {
    auto l = std::to_string(was.size()) + " ";
    if (at < l.size() || ar.compare(at - l.size(), l.size(), l) != 0)
      return false;
    ar.replace(at - l.size(), l.size() + was.size(), std::to_string(now.size()) + " " + now);
  }
  return true;
}

std::vector<std::string>
words(const std::string& s)
{
  std::istringstream in(s);
  in.imbue(std::locale::classic());
  std::vector<std::string> v;
  std::string w;
  while (in >> w)
    v.push_back(w);
  return v;
}
std::string
join(const std::vector<std::string>& v)
{
  std::string o;
  for (size_t i = 0; i < v.size(); i++)
    o += (i ? " " : "") + v[i];
  return o;
}

template<class G>
void
run(const Plan& p, Run& r, size_t n_state)
{
  constexpr int N = 3;
  G g[N] = { G((typename G::result_type)p.c(1)), G(7u), G(12345u) };
  std::string good[2]; // newest intact checkpoint of each format
  G good_g[2];
  bool have[2] = {};
  bool damaged = false;
  const uint64_t span = 2 * n_state + 7;
  for (auto& s : p.steps) {
    int i = (int)((uint64_t)s.at(0) % N), j = (int)((uint64_t)s.at(1) % N);
    int fmt = (int)(s.at(2) & 1);
    r.mixs(s.op);
    if (s.op == "draw") {
      for (int64_t k = 0; k < std::min<int64_t>(s.at(1), 5000); k++)
        r.mix((uint64_t)g[i]());
    } else if (s.op == "seed") {
      g[i].seed((typename G::result_type)s.at(1));
    } else if (s.op == "roundtrip") {
      auto before = g[i];
      auto data = save(g[i], fmt);
      if (!(g[i] == before))
        r.fail("source", "saving changed the generator");
      load(g[j], data, fmt);
      r.fault("checkpoint-restore");
      must_equal(r, g[j], before, span, fmt ? "binary archive" : "text archive");
      good[fmt] = data;
      good_g[fmt] = before;
      have[fmt] = true;
      r.state(sim::hmix(sim::hmix((uint64_t)p.c(0), (uint64_t)fmt), sim::hstr(words(state(before)).back())));
    } else if (s.op == "locale") {
      // the program, or another one that goes on with its checkpoints, runs
      // with the locale of its user; the archives' streams do not
      travel((uint64_t)s.at(3));
      if ((uint64_t)s.at(3) % 5)
        r.fault("locale-changed");
    } else if (s.op == "oom") {
      // memory runs out while saving or while loading
      auto before = g[i];
      std::string data;
      try {
        sim::mem::Scope m(s.at(3), s.at(4) & 1);
        data = save(g[i], fmt);
      } catch (const std::exception&) {
        r.fault("save-out-of-memory");
        data.clear();
      }
      if (!(g[i] == before))
        r.fail("source", "a failed save changed the generator");
      if (data.empty())
        data = save(g[i], fmt);
      bool ok = false;
      try {
        sim::mem::Scope m(s.at(3), s.at(4) & 1);
        load(g[j], data, fmt);
        ok = true;
      } catch (const std::exception&) {
        r.fault("load-out-of-memory");
      }
      if (ok)
        must_equal(r, g[j], before, span, "a restore that returned normally");
      load(g[j], data, fmt);
      must_equal(r, g[j], before, span, "the restore after a failed one");
      damaged = true;
    } else if (s.op == "damage") {
      const G before = g[i];
      auto data = save(before, fmt);
      const auto text = state(before);
      auto w = words(text);
      std::string kind;
      bool may_equal = false;
      uint64_t q = (uint64_t)s.at(4);
      auto bad = data;
      bool built = true;
      switch ((uint64_t)s.at(3) % 6) {
        case 0: // the archive was cut short
          bad.resize(q % data.size());
          kind = "archive-cut";
          may_equal = true; // only what follows the state was lost
          break;
        case 1: { // a letter somewhere in the state
          auto t = text;
          t.insert(q % (t.size() + 1), 1, "aZxeEn+"[(q >> 20) % 6]);
          built = replace_text(bad, text, t, fmt);
          kind = "letter-inserted";
          break;
        }
        case 2: { // a digit turned into a letter
          auto t = text;
          size_t k = q % t.size();
          while (t[k] == ' ')
            k = (k + 1) % t.size();
          t[k] = "gGoOlx"[(q >> 20) % 6];
          built = replace_text(bad, text, t, fmt);
          kind = "digit-replaced";
          break;
        }
        case 3: { // numbers missing
          size_t k = 1 + (q >> 8) % std::min<size_t>(w.size(), 4), at = q % w.size();
          for (size_t c = 0; c < k && !w.empty(); c++)
            w.erase(w.begin() + (long)(at % w.size()));
          built = replace_text(bad, text, join(w), fmt);
          kind = "list-too-short";
          break;
        }
        case 4: { // too many numbers
          for (uint64_t c = 0; c < 1 + (q >> 8) % 4; c++)
            w.insert(w.begin() + (long)(q % (w.size() + 1)), std::to_string(q % 4000000000u));
          built = replace_text(bad, text, join(w), fmt);
          kind = "list-too-long";
          break;
        }
        case 5: // nothing but the first numbers
          w.resize(q % w.size());
          built = replace_text(bad, text, join(w), fmt);
          kind = "list-cut";
          break;
      }
      if (!built) {
        r.probe("archive-layout-not-recognised");
        continue;
      }
      r.fault(kind.c_str());
      damaged = true;
      bool accepted = false;
      G target = g[j];
      try {
        load(target, bad, fmt);
        accepted = true;
      } catch (const std::exception& e) {
        r.mixs("refused");
      }
      if (accepted) {
        if (!may_equal)
          r.fail("accepted-damage", "a state with %s was accepted (%s archive)", kind.c_str(), fmt ? "binary" : "text");
        if (!(target == before))
          r.fail("accepted-damage", "a state cut after %zu of %zu bytes was accepted as another state (%s archive)", bad.size(), data.size(), fmt ? "binary" : "text");
      }
      // restore from an intact checkpoint
      int f = have[fmt] ? fmt : fmt ^ 1;
      if (have[f]) {
        load(target, good[f], f);
        must_equal(r, target, good_g[f], span, "intact checkpoint after a refused one");
      } else {
        load(target, data, fmt);
        must_equal(r, target, before, span, "intact checkpoint after a refused one");
      }
      g[j] = target;
    } else if (s.op == "pieces") {
      // the checkpoint arrives from its file in pieces
      auto data = save(g[i], fmt);
      auto before = g[i];
      PieceBuf pb(data, (uint64_t)s.at(3), (int)(1 + (uint64_t)s.at(4) % 600));
      std::istream in(&pb);
      in.imbue(std::locale::classic());
      if (fmt) {
        boost::archive::binary_iarchive ar(in);
        ar >> g[j];
      } else {
        boost::archive::text_iarchive ar(in);
        ar >> g[j];
      }
      r.fault("short-reads");
      must_equal(r, g[j], before, span, "delivered in pieces");
    }
  }
  if (damaged)
    r.nontrivial();
}

Plan
gen(Rng& g, bool thorough)
{
  Plan p;
  p.cfg = { g.chance(0.5) ? 2 : g.range(0, 1), (int64_t)(g.next() >> 1) };
  int n = (int)g.range(2, thorough ? 20 : 10);
  for (int k = 0; k < n; k++) {
    int64_t i = g.range(0, 2), j = g.range(0, 2), f = g.range(0, 1);
    switch (g.below(11)) {
      case 10:
        p.add("locale", { 0, 0, 0, (int64_t)g.below(120) });
        break;
      case 0:
      case 1:
        p.add("draw", { i, g.chance(0.5) ? g.range(0, 12) : g.chance(0.3) ? g.range(300, 340) : g.range(600, 1300) });
        break;
      case 2:
        p.add("seed", { i, (int64_t)(g.next() >> 1) });
        break;
      case 3:
        p.add("roundtrip", { i, j, f });
        break;
      case 4:
        p.add("oom", { i, j, f, g.range(1, 14), g.range(0, 1) });
        break;
      case 5:
        p.add("pieces", { i, j, f, (int64_t)(g.next() >> 1), g.range(0, 600) });
        break;
      default: {
        int64_t kind = g.chance(0.35) ? 0 : g.range(1, 5);
        p.add("damage", { i, j, f, kind, (int64_t)(g.next() >> 1) });
        if (g.chance(0.5)) { // cuts near the end, where the position is stored
          p.steps.back().a[3] = 6; // resolved below
        }
      }
    }
  }
  // cuts near the end: distance from the end decided here, position at run time
  for (auto& s : p.steps)
    if (s.op == "damage" && s.a[3] == 6) {
      s.op = "endcut";
      s.a[3] = 0;
      s.a[4] = g.range(1, 12);
    }
  return p;
}

template<class G>
void
endcuts(const Plan& p, Run& r)
{
  // run every prefix cut near the end for the states the plan reaches
  G g((typename G::result_type)p.c(1));
  for (auto& s : p.steps) {
    if (s.op == "draw" && s.at(0) == 0)
      g.discard((unsigned long long)std::min<int64_t>(5000, std::max<int64_t>(0, s.at(1))));
    if (s.op != "endcut")
      continue;
    int fmt = (int)(s.at(2) & 1);
    auto data = save(g, fmt);
    auto bad = data.substr(0, data.size() - std::min<size_t>(data.size(), (size_t)s.at(4)));
    G target((typename G::result_type)(s.at(4) + 99));
    bool ok = false;
    try {
      load(target, bad, fmt);
      ok = true;
    } catch (const std::exception&) {
      r.mixs("refused");
    }
    r.fault("archive-cut");
    if (ok && !(target == g))
      r.fail("accepted-damage", "a state whose last %lld bytes were lost was accepted as another state (%s archive)", (long long)s.at(4), fmt ? "binary" : "text");
    load(target, data, fmt);
    must_equal(r, target, g, 20, "intact checkpoint after a refused one");
  }
}

void
exec(const Plan& p, Run& r)
{
  warm_up();
  struct Home
  {
    ~Home() { std::locale::global(std::locale::classic()); }
  } home;
  switch ((uint64_t)p.c(0) % 3) {
    case 0:
      run<std::mt19937_64>(p, r, 312);
      return endcuts<std::mt19937_64>(p, r);
    case 1:
      run<std::mt19937>(p, r, 624);
      return endcuts<std::mt19937>(p, r);
    default:
      run<tiny_mt>(p, r, 5);
      return endcuts<tiny_mt>(p, r);
  }
}
}

const sim::CheckDef&
sim::check()
{
  static CheckDef d;
  d.property = "C02";
  d.rule = "Each run draws from, seeds, saves and restores three generators of one Mersenne-twister type (64-bit, 32-bit, or a 5-word member of the family whose every byte is reached) and damages checkpoints: cut at any byte, numbers missing or added, letters inserted or replacing digits, memory exhausted, short reads, the program's locale changed between any two steps. Non-trivial: at least one damaged or failed restore.";
  d.state_measure = "(engine, archive format, position in the state array at the save)";
  d.real = { "bwsl/RNGUtils.hpp", "std::mersenne_twister_engine and its stream operators", "boost text and binary archives" };
  d.stub = { "archive storage (memory, delivered in pieces or cut)", "allocator (failure injection)" };
  d.assumptions = { "a cut inside the last number of the stored text with a consistent length field is another valid state and not detectable" };
  d.must_fire = { "archive-cut", "letter-inserted", "digit-replaced", "list-too-short", "list-too-long", "list-cut", "locale-changed", "load-out-of-memory", "save-out-of-memory", "short-reads", "checkpoint-restore" };
  d.quick_runs = 12000;
  d.thorough_runs = 200000;
  d.generate = gen;
  d.execute = exec;
  return d;
}
