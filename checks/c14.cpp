// C14: enum/string conversions are inverse, and a failed one reports itself
// intact; so do all exceptions of the library.
#define BWSL_ACCUMULATORS_CHECKS
#include "common.hpp"
#include <bwsl/EnumString.hpp>
#include <bwsl/Exceptions.hpp>
#include <bwsl/RationalNum.hpp>
#include <bwsl/accumulators/NaiveIntegerAccumulator.hpp>
#include <bwsl/mcutils/MoveStats.hpp>
#include <memory>

using namespace chk;
namespace mc = bwsl::montecarlo;

BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Single, (only_one))
BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Nested, (A)(AB)(ABC)(ABCD)(a)(ab)(B))
BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Ensemble, (Canonical)(GrandCanonical)(Microcanonical))
namespace deep {
BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(
  Many,
  (m00)(m01)(m02)(m03)(m04)(m05)(m06)(m07)(m08)(m09)(m10)(m11)(m12)(m13)(m14)(m15)(m16)(m17)(m18)(m19)(m20)(a_quite_long_enumerator_name_that_does_not_fit_into_a_small_string)(another_quite_long_enumerator_name_that_does_not_fit_into_a_small_string))
BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(
  Crowd,
  (s0)(s1)(s2)(s3)(s4)(s5)(s6)(s7)(s8)(s9)(s10)(s11)(s12)(s13)(s14)(s15)(s16)(s17)(s18)(s19)
  (s20)(s21)(s22)(s23)(s24)(s25)(s26)(s27)(s28)(s29)(s30)(s31)(s32)(s33)(s34)(s35)(s36)(s37)(s38)(s39)
  (s40)(s41)(s42)(s43)(s44)(s45)(s46)(s47)(s48)(s49)(s50)(s51)(s52)(s53)(s54)(s55)(s56)(s57)(s58)(s59)
  (s60)(s61)(s62)(s63)(s64)(s65)(s66)(s67)(s68)(s69)(s70)(s71)(s72)(s73)(s74)(s75)(s76)(s77)(s78)(s79)
  (s80)(s81)(s82)(s83)(s84)(s85)(s86)(s87)(s88)(s89)(s90)(s91)(s92)(s93)(s94)(s95)(s96)(s97)(s98)(s99)
  (s100)(s101)(s102)(s103)(s104)(s105)(s106)(s107)(s108)(s109)(s110)(s111)(s112)(s113)(s114)(s115)(s116)(s117)(s118)(s119)
  (s120)(s121)(s122)(s123)(s124)(s125)(s126)(s127)(s128)(s129)(s130)(s131)(s132)(s133)(s134)(s135)(s136)(s137)(s138)(s139)
  (s140)(s141)(s142)(s143)(s144)(s145)(s146)(s147)(s148)(s149)(s150)(s151)(s152)(s153)(s154)(s155)(s156)(s157)(s158)(s159))
}

namespace {

template<class E>
struct Enum
{
  const char* name;
  std::vector<std::string> names;
};
const Enum<Single> kSingle = { "Single", { "only_one" } };
const Enum<Nested> kNested = { "Nested", { "A", "AB", "ABC", "ABCD", "a", "ab", "B" } };
const Enum<Ensemble> kEnsemble = { "Ensemble", { "Canonical", "GrandCanonical", "Microcanonical" } };
const Enum<deep::Many> kMany = { "Many", { "m00", "m01", "m02", "m03", "m04", "m05", "m06", "m07", "m08", "m09", "m10", "m11", "m12", "m13", "m14", "m15", "m16", "m17", "m18", "m19", "m20", "a_quite_long_enumerator_name_that_does_not_fit_into_a_small_string", "another_quite_long_enumerator_name_that_does_not_fit_into_a_small_string" } };

const Enum<deep::Crowd> kCrowd = { "Crowd", [] {
                                   std::vector<std::string> v;
                                   for (int i = 0; i < 160; i++)
                                     v.push_back("s" + std::to_string(i));
                                   return v;
                                 }() };

/// An exception held by its own type
struct Held
{
  virtual ~Held() = default;
  virtual const std::exception& get() const = 0;
  virtual std::unique_ptr<Held> copy() const = 0;
  virtual bool assign(const Held& o) = 0;
  virtual std::unique_ptr<Held> take() = 0;
  virtual std::exception_ptr thrown() const = 0;
};
template<class X>
struct HeldOf : Held
{
  X x;
  explicit HeldOf(const X& y)
    : x(y)
  {
  }
  explicit HeldOf(X&& y)
    : x(std::move(y))
  {
  }
  const std::exception& get() const override { return x; }
  std::unique_ptr<Held> copy() const override { return std::make_unique<HeldOf>(x); }
  bool assign(const Held& o) override
  {
    auto p = dynamic_cast<const HeldOf*>(&o);
    if (!p)
      return false;
    if constexpr (std::is_copy_assignable_v<X>) {
      x = p->x;
      return true;
    } else
      return false;
  }
  std::unique_ptr<Held> take() override { return std::make_unique<HeldOf>(std::move(x)); }
  std::exception_ptr thrown() const override { return std::make_exception_ptr(x); }
};

struct Slot
{
  std::unique_ptr<Held> held;   // either a copy of the object
  std::exception_ptr flying;    // or the exception as it was thrown
  std::string text, names;      // what it said first, what it must name
  std::vector<std::string> held_texts;
  const char* first = nullptr;  // the pointer it returned
};

struct Sim
{
  Run& r;
  static constexpr int N = 6;
  Slot slot[N];
  uint64_t refused = 0;

  std::string what_of(const Slot& s, bool no_memory)
  {
    // what() itself may need nothing; the string made of it is the check's
    const char* p = nullptr;
    std::string out;
    auto read = [&](const std::exception& e) {
      {
        sim::mem::Scope scope(no_memory ? 1 : 0, true);
        p = e.what();
        if (sim::mem::failures())
          r.probe("what-asked-for-memory");
      }
      if (!p)
        r.fail("text", "the text of an exception is a null pointer");
      out = p;
    };
    if (s.held)
      read(s.held->get());
    else
      try {
        std::rethrow_exception(s.flying);
      } catch (const std::exception& e) {
        read(e);
      }
    if (no_memory)
      r.fault("no-memory-while-reporting");
    return out;
  }

  void verify(int k, bool no_memory, const char* when)
  {
    auto& s = slot[k];
    if (!s.held && !s.flying)
      return;
    auto t = what_of(s, no_memory);
    r.mixs(t);
    if (t != s.text)
      r.fail("text", "the text of an exception %s was '%.200s' and is now '%.200s'", when, s.text.c_str(), t.c_str());
  }
  void verify_all(const char* when)
  {
    for (int k = 0; k < N; k++)
      verify(k, false, when);
  }

  static bool names_number(const std::string& t, double x)
  {
    for (size_t i = 0; i < t.size(); i++) {
      if (i && (isalnum((unsigned char)t[i - 1]) || t[i - 1] == '.' || t[i - 1] == '-'))
        continue;
      char* e;
      double v = strtod(t.c_str() + i, &e);
      if (e == t.c_str() + i)
        continue;
      if (std::isnan(x) ? std::isnan(v) : v == x || std::fabs(v - x) <= 1e-5 * std::fabs(x))
        return true;
    }
    return false;
  }

  template<class X>
  void keep(int k, const X& x, std::exception_ptr flying, int64_t how, const std::string& text)
  {
    auto& s = slot[k];
    s.held.reset();
    s.flying = nullptr;
    if (how & 1)
      s.held = std::make_unique<HeldOf<X>>(x);
    else
      s.flying = flying;
    s.text = text;
    refused++;
  }

  template<class E, class X>
  void convert(const Enum<E>& info, int k, const Step& s)
  {
    // args: op slot, enum, how, text kind, number, nth, sticky
    std::string text;
    Rng g((uint64_t)s.at(4));
    auto& nm = info.names[g.below(info.names.size())];
    switch ((uint64_t)s.at(3) % 16) {
      case 0:
      case 1:
        text = nm;
        break;
      case 2:
        text = nm.substr(0, g.below(nm.size() + 1));
        break;
      case 3:
        text = nm + (char)g.range(1, 126);
        break;
      case 4:
        text = nm;
        text[g.below(text.size())] ^= 32;
        break;
      case 5:
        text = g.chance(0.5) ? " " + nm : nm + " ";
        break;
      case 6: // with a null byte inside
        text = nm + std::string(1, '\0') + "x";
        break;
      case 7:
        text = std::string(g.below(3000), (char)g.range('a', 'z'));
        break;
      case 9: { // the same letters in another order
        text = nm;
        size_t a = g.below(text.size()), b = g.below(text.size());
        std::swap(text[a], text[b]);
        if (g.chance(0.3))
          std::reverse(text.begin(), text.end());
        break;
      }
      case 10: // another letter somewhere
        text = nm;
        text[g.below(text.size())] = g.chance(0.5) ? nm[g.below(nm.size())] : (char)g.range('!', '~');
        break;
      case 11: // a letter too few or too many
        text = nm;
        if (g.chance(0.5))
          text.erase(g.below(text.size()), 1);
        else
          text.insert(g.below(text.size() + 1), 1, (char)g.range(1, 127));
        break;
      case 12: { // the name of an enumerator of another type, or a number
        const std::vector<std::string>* all[] = { &kSingle.names, &kNested.names, &kEnsemble.names, &kMany.names, &kCrowd.names };
        auto& other = *all[g.below(5)];
        text = g.chance(0.7) ? other[g.below(other.size())] : std::to_string(g.range(-2, (int64_t)info.names.size() + 1));
        break;
      }
      case 13: // two names
        text = nm + (g.chance(0.5) ? "" : ",") + info.names[g.below(info.names.size())];
        break;
      case 14: // qualified
        text = std::string(info.name) + "::" + nm;
        break;
      case 15: // the same length and the same ends
        text = nm;
        for (size_t q = 1; q + 1 < text.size(); q++)
          if (g.chance(0.5))
            text[q] = (char)g.range('a', 'z');
        break;
      default:
        for (int n = (int)g.below(30); n > 0; n--)
          text += (char)g.range(1, 255);
        if (g.chance(0.2))
          text = std::string("[ Unknown ") + info.name + " ]";
        if (g.chance(0.2))
          text = "{} %s %n";
    }
    int64_t want = -1;
    for (size_t i = 0; i < info.names.size(); i++)
      if (info.names[i] == text)
        want = (int64_t)i;
    const E before = (E)(g.below(info.names.size() + 1));
    E e = before;
    std::exception_ptr flying;
    bool oom = false;
    std::string said;
    uint64_t nomem = 0;
    try {
      sim::mem::Scope scope(s.at(5), s.at(6) & 1);
      try {
        FromString(e, text);
      } catch (...) {
        nomem = sim::mem::failures();
        throw;
      }
      nomem = sim::mem::failures();
    } catch (const X& x) {
      said = x.what();
      flying = std::current_exception();
      if (want >= 0)
        r.fail("refused", "'%s' is an enumerator of %s but was refused", text.c_str(), info.name);
      if (said.find(std::string(text.c_str())) == std::string::npos)
        r.fail("text", "converting '%.100s' to %s failed saying '%.200s'", text.c_str(), info.name, said.c_str());
      keep(k, x, flying, s.at(2), said);
      r.probe("conversion-refused");
    } catch (const std::bad_alloc&) {
      oom = true;
      if (!nomem)
        r.fail("refused", "converting '%.100s' to %s ran out of memory although there was some", text.c_str(), info.name);
    }
    if (nomem)
      r.fault("out-of-memory");
    if (flying || oom) {
      if (e != before)
        r.fail("changed", "the refused conversion of '%.100s' changed the target of type %s", text.c_str(), info.name);
    } else {
      if (want < 0)
        r.fail("accepted", "'%.100s' was accepted as enumerator %d of %s", text.c_str(), (int)e, info.name);
      if ((int64_t)e != want)
        r.fail("value", "'%s' was converted to enumerator %d of %s", text.c_str(), (int)e, info.name);
      // and back
      bool failed = false;
      std::string back;
      try {
        sim::mem::Scope scope(s.at(5), s.at(6) & 1);
        back = ToString(e);
      } catch (const std::bad_alloc&) {
        failed = true;
        r.fault("out-of-memory");
      }
      if (!failed && back != text)
        r.fail("name", "enumerator %d of %s converts to '%s'", (int)e, info.name, back.c_str());
      r.probe("round-trip");
    }
  }

  void run(const Plan& p)
  {
    std::vector<std::unique_ptr<char[]>> heap;
    for (auto& s : p.steps) {
      r.mixs(s.op);
      int k = (int)((uint64_t)s.at(0) % N), j = (int)((uint64_t)s.at(1) % N);
      if (s.op == "convert") {
        switch ((uint64_t)s.at(1) % 5) {
          case 0:
            convert<Single, EnumStringConversionFailed_Single>(kSingle, k, s);
            break;
          case 1:
            convert<Nested, EnumStringConversionFailed_Nested>(kNested, k, s);
            break;
          case 2:
            convert<Ensemble, EnumStringConversionFailed_Ensemble>(kEnsemble, k, s);
            break;
          case 4:
            convert<deep::Crowd, deep::EnumStringConversionFailed_Crowd>(kCrowd, k, s);
            break;
          default:
            convert<deep::Many, deep::EnumStringConversionFailed_Many>(kMany, k, s);
        }
      } else if (s.op == "raise") {
        // args: slot, kind, how, number, nth, sticky
        Rng g((uint64_t)s.at(3));
        std::string name;
        for (int n = g.chance(0.2) ? 900 : (int)g.below(40); n > 0; n--)
          name += (char)(g.chance(0.1) ? "{}%\\"[g.below(4)] : g.range(32, 126));
        static const double probs[] = { 1.5, -1, 0.1, 1.0 / 3, 1e300, -1e-300, INFINITY, -INFINITY, NAN, 5e-324, 12345678.9 };
        double prob = g.chance(0.6) ? probs[g.below(11)] : g.unit() * 3 - 1;
        std::exception_ptr flying;
        uint64_t nomem = 0;
        int kind = (int)((uint64_t)s.at(1) % 4);
        mc::MoveStats stats(name);
        if (g.chance(0.5))
          stats.Propose();
        const bool proposed = g.chance(0.5);
        (void)proposed;
        auto pending = [&] {
          auto c = stats;
          try {
            c.Impossible();
            return true;
          } catch (...) {
            return false;
          }
        }();
        bwsl::NaiveInteger full;
        try {
          sim::mem::Scope scope(s.at(4), s.at(5) & 1);
          try {
            switch (kind) {
              case 0:
                if (pending)
                  stats.Propose();
                else
                  stats.Accept(0.5);
                break;
              case 1:
                throw mc::exception::InvalidProbability(prob);
              case 2: {
                bwsl::RationalNum<long> q(1L, 2L);
                bwsl::FromString(std::string("1/x"), q);
                break;
              }
              default:
                full.Add(std::numeric_limits<long>::max());
                full.Add(std::numeric_limits<long>::max());
            }
          } catch (...) {
            nomem = sim::mem::failures();
            throw;
          }
          r.fail("accepted", "operation %d was not refused", kind);
        } catch (const mc::exception::MoveInvalidSequence& x) {
          std::string t = x.what();
          if (t.find(name) == std::string::npos)
            r.fail("text", "an invalid sequence of the move '%s' is reported as '%s'", name.c_str(), t.c_str());
          keep(k, x, std::current_exception(), s.at(2), t);
          r.probe("invalid-sequence");
        } catch (const mc::exception::InvalidProbability& x) {
          std::string t = x.what();
          if (!names_number(t, prob))
            r.fail("text", "the invalid probability %.17g is reported as '%s'", prob, t.c_str());
          keep(k, x, std::current_exception(), s.at(2), t);
          r.probe("invalid-probability");
        } catch (const bwsl::exception::BadParsing& x) {
          keep(k, x, std::current_exception(), s.at(2), x.what());
          r.probe("bad-parsing");
        } catch (const bwsl::exception::AccumulatorOverflow& x) {
          const std::exception& e = x;
          keep(k, x, std::current_exception(), s.at(2), e.what());
          r.probe("overflow");
        } catch (const std::bad_alloc&) {
          if (!nomem)
            r.fail("refused", "operation %d ran out of memory although there was some", kind);
        }
        if (nomem)
          r.fault("out-of-memory");
        if ((slot[k].held || slot[k].flying) && slot[k].text.empty())
          r.fail("text", "an exception has no text");
      } else if (s.op == "copy") {
        // construct a copy of slot j in slot k; the source may go first
        if (!slot[j].held || k == j)
          continue;
        std::unique_ptr<Held> c;
        try {
          sim::mem::Scope scope(s.at(2), s.at(3) & 1);
          c = slot[j].held->copy();
        } catch (const std::bad_alloc&) {
          r.fault("out-of-memory");
        }
        verify(j, false, "that was copied");
        if (c) {
          slot[k].flying = nullptr;
          slot[k].held = std::move(c);
          slot[k].text = slot[j].text;
          r.probe("copied");
        }
      } else if (s.op == "assign") {
        if (!slot[j].held || !slot[k].held)
          continue;
        bool done = false;
        try {
          sim::mem::Scope scope(s.at(2), s.at(3) & 1);
          done = slot[k].held->assign(*slot[j].held);
        } catch (const std::bad_alloc&) {
          r.fault("out-of-memory");
        }
        if (done) {
          slot[k].text = slot[j].text;
          r.probe("assigned");
        }
      } else if (s.op == "throwcopy") {
        // the object is thrown again from a copy, the original goes away
        if (!slot[k].held)
          continue;
        slot[k].flying = slot[k].held->thrown();
        slot[k].held.reset();
      } else if (s.op == "move") {
        // only what arrives is checked
        if (!slot[j].held || k == j)
          continue;
        slot[k].flying = nullptr;
        slot[k].held = slot[j].held->take();
        slot[k].text = slot[j].text;
        slot[j].held.reset();
      } else if (s.op == "drop") {
        slot[k].held.reset();
        slot[k].flying = nullptr;
      } else if (s.op == "churn") {
        // somebody else uses the heap
        Rng g((uint64_t)s.at(1));
        for (int n = 0; n < 40; n++) {
          size_t z = 8 + g.below(300);
          auto b = std::make_unique<char[]>(z);
          memset(b.get(), (int)g.below(256), z);
          if (g.chance(0.3) && heap.size() < 500)
            heap.push_back(std::move(b));
        }
        if (g.chance(0.5))
          heap.clear();
        r.fault("heap-churn");
      } else if (s.op == "report") {
        verify(k, s.at(1) & 1, s.at(1) & 1 ? "read without memory" : "read again");
      }
      verify_all(("after '" + s.op + "'").c_str());
      uint64_t h = 0;
      for (auto& q : slot)
        h = sim::hmix(h, q.held ? 1 + q.text.size() / 40 : q.flying ? 100 + q.text.size() / 40 : 0);
      r.state(h);
    }
    if (refused)
      r.nontrivial();
  }
};

void
exec(const Plan& p, Run& r)
{
  warm_up();
  Sim s{ r };
  s.run(p);
}

Plan
gen(Rng& g, bool thorough)
{
  Plan p;
  for (int n = (int)g.range(4, thorough ? 60 : 30); n > 0; n--) {
    int64_t k = g.range(0, 5), nth = g.chance(0.25) ? g.range(1, 8) : 0, st = g.range(0, 1), seed = (int64_t)(g.next() >> 1);
    switch (g.below(14)) {
      case 0:
      case 1:
      case 2:
      case 3:
        p.add("convert", { k, g.range(0, 4), g.range(0, 1), g.range(0, 15), seed, nth, st });
        break;
      case 4:
      case 5:
      case 6:
        p.add("raise", { k, g.range(0, 3), g.range(0, 1), seed, nth, st });
        break;
      case 7:
        p.add("copy", { k, g.range(0, 5), nth, st });
        break;
      case 8:
        p.add("assign", { k, g.range(0, 5), nth, st });
        break;
      case 9:
        p.add("throwcopy", { k });
        break;
      case 10:
        p.add("move", { k, g.range(0, 5) });
        break;
      case 11:
        p.add("drop", { k });
        break;
      case 12:
        p.add("churn", { 0, seed });
        break;
      default:
        p.add("report", { k, g.range(0, 1) });
    }
  }
  return p;
}
}

const sim::CheckDef&
sim::check()
{
  static CheckDef d;
  d.property = "C14";
  d.rule = "Each run converts enumerators of five enumerations (one to 160 enumerators, names that are prefixes of each other, long names) and all kinds of strings that are none, and provokes every exception of the library, under failing allocations; up to six exceptions are kept as thrown or as copies, copied, assigned, moved, thrown again and dropped in any order between bursts of other heap activity, and their texts are read again, also while every allocation fails. Non-trivial: at least one exception was raised.";
  d.state_measure = "(which slots hold a copy or a thrown exception, length class of their texts)";
  d.real = { "bwsl/EnumString.hpp", "bwsl/Exceptions.hpp", "bwsl/mcutils/MoveStats.hpp", "bwsl/accumulators/AccumulatorsExceptions.hpp", "bwsl/RationalNum.hpp", "fmt", "libstdc++ exceptions" };
  d.stub = { "operator new (failure injection)", "other users of the heap" };
  d.assumptions = { "a text names a value if it contains it (numbers: to five digits)", "a moved-from exception has no text" };
  d.must_fire = { "out-of-memory", "no-memory-while-reporting", "heap-churn", "conversion-refused", "round-trip", "invalid-sequence", "invalid-probability", "bad-parsing", "overflow", "copied", "assigned" };
  d.quick_runs = 30000;
  d.thorough_runs = 600000;
  d.generate = gen;
  d.execute = exec;
  return d;
}
