// C10: a rational read from a stream is exactly what was written, or the read
// fails.
#include "faults.hpp"
#include <bwsl/RationalNum.hpp>
#include <fstream>
#include <iomanip>

using namespace chk;
namespace fs = sim::fs;
using bwsl::RationalNum;
using wide = __int128;

namespace {

/// What the bytes say, read by hand.
struct Parsed
{
  bool ok = false;        // some rational is there
  bool canonical = false; // in exactly the form the library writes
  bool to_end = false;    // the reader has to look past the last byte
  wide num = 0, den = 0;
  size_t end = 0;         // one past the rational
};

template<class T>
Parsed
parse(const std::string& s, size_t from)
{
  Parsed p;
  size_t i = from;
  bool plain = true;
  auto space = [&](bool lead) {
    while (i < s.size() && isspace((unsigned char)s[i])) {
      i++;
      plain = plain && lead;
    }
  };
  auto number = [&](wide& v) {
    bool neg = false;
    if (i < s.size() && (s[i] == '-' || s[i] == '+')) {
      neg = s[i] == '-';
      plain = plain && neg;
      i++;
    }
    size_t b = i;
    wide x = 0;
    bool big = false;
    while (i < s.size() && s[i] >= '0' && s[i] <= '9') {
      x = x * 10 + (s[i] - '0');
      if (x > (wide)1 << 100) {
        big = true;
        x = 1;
      }
      i++;
    }
    if (i - b > 1 && s[b] == '0')
      plain = false;
    v = neg ? -x : x;
    return i > b && !big && v >= (wide)std::numeric_limits<T>::min() && v <= (wide)std::numeric_limits<T>::max();
  };
  space(true);
  bool good = number(p.num);
  if (good && i < s.size()) {
    for (int k = 0; k < 2 && good; k++) {
      space(false);
      good = i < s.size() && s[i] == '/';
      if (good)
        i++;
    }
    if (good) {
      space(false);
      good = number(p.den);
    }
  } else
    good = false;
  p.to_end = i >= s.size();
  p.end = i;
  p.ok = good && p.den != 0;
  p.canonical = p.ok && plain;
  return p;
}

/// How some country writes numbers
struct Country : std::numpunct<char>
{
  char sep;
  std::string groups;
  Country(char c, std::string g)
    : sep(c)
    , groups(std::move(g))
  {
  }
  char do_thousands_sep() const override { return sep; }
  std::string do_grouping() const override { return groups; }
};

std::locale
country(int64_t where)
{
  static const char seps[] = { ',', '.', ' ', '\'' };
  static const char* const groups[] = { "\3", "\3\2", "\4" };
  uint64_t w = (uint64_t)where;
  return w % 3 == 0 ? std::locale::classic() : std::locale(std::locale::classic(), new Country(seps[w / 3 % 4], groups[w / 12 % 3]));
}

template<class T>
std::string
str(T num, T den)
{
  return std::to_string(num) + "//" + std::to_string(den);
}

template<class T>
struct Sim
{
  Run& r;
  uint64_t refused = 0, accepted = 0;

  static T number(int64_t kind, int64_t seed)
  {
    Rng g((uint64_t)seed);
    constexpr T lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    switch ((uint64_t)kind % 6) {
      case 0:
        return (T)g.range(-9, 9);
      case 1:
        return (T)g.range(-1000, 1000);
      case 2:
        return (T)(g.next() >> g.below(60));
      case 3:
        return g.chance(0.5) ? lo : hi;
      case 4: {
        T p = 1;
        for (int k = (int)g.below(sizeof(T) * 2); k > 0; k--)
          p = (T)(p * 10);
        return g.chance(0.5) ? p : (T)-p;
      }
      default:
        return (T)g.range(0, 1) ? (T)(hi - (T)g.range(0, 3)) : (T)(lo + (T)g.range(0, 3));
    }
  }
  static RationalNum<T> target(int64_t kind)
  {
    return (kind & 1) ? RationalNum<T>() : RationalNum<T>((T)(3 + (uint64_t)kind % 5), (T)8);
  }
  static bool is(RationalNum<T> const& x, wide num, wide den) { return x.GetDen() != 0 && (wide)x.GetNum() * den == num * (wide)x.GetDen(); }

  /// reads rationals one after the other; the expectation comes from the bytes
  /// the stream can deliver
  void read_all(std::istream& in, const std::string& bytes, bool error_at_end, int64_t tk, const char* how, const std::function<size_t()>& consumed, bool harmed = false)
  {
    size_t at = 0;
    for (int k = 0; k < 40; k++) {
      auto p = parse<T>(bytes, at);
      auto x = target(tk + k);
      auto before = x;
      bool threw = false;
      try {
        in >> x;
      } catch (const std::exception&) {
        threw = true;
      }
      bool failed = threw || in.fail();
      if (x.GetDen() == 0)
        r.fail("zero-denominator", "reading '%s' (%s) left a zero denominator", bytes.substr(at, 60).c_str(), how);
      if (failed) {
        if (x.GetNum() != before.GetNum() || x.GetDen() != before.GetDen())
          r.fail("changed", "a failed read of '%s' (%s) changed the target from %s to %s", bytes.substr(at, 60).c_str(), how, str(before.GetNum(), before.GetDen()).c_str(), str(x.GetNum(), x.GetDen()).c_str());
        if (p.canonical && !(p.to_end && error_at_end) && !harmed)
          r.fail("refused", "reading '%s' (%s) failed", bytes.substr(at, p.end - at).c_str(), how);
        refused++;
        r.probe("read-refused");
        return;
      }
      if (!p.ok || (p.to_end && error_at_end))
        r.fail("accepted", "reading '%s' (%s%s) was accepted as %s", bytes.substr(at, 60).c_str(), how, p.ok ? ", which then fails" : "", str(x.GetNum(), x.GetDen()).c_str());
      if (!is(x, p.num, p.den))
        r.fail("value", "reading '%s' (%s) gave %s", bytes.substr(at, p.end - at).c_str(), how, str(x.GetNum(), x.GetDen()).c_str());
      accepted++;
      if (consumed && consumed() != p.end)
        r.fail("position", "after reading '%s' (%s) the stream is at byte %zu instead of %zu", bytes.substr(at, p.end - at).c_str(), how, consumed(), p.end);
      at = p.end;
      if (in.eof())
        return;
    }
  }

  void run(const Plan& plan)
  {
    for (auto& s : plan.steps) {
      r.mixs(s.op);
      if (s.op == "stream") {
        // args: kinds/seeds of up to 4 rationals (n, k, seed...), pieces, cut (-1), error, corrupt position (-1), byte, separator, format, exceptions
        std::ostringstream os;
        int n = 1 + (int)((uint64_t)s.at(0) % 4);
        static const char* seps[] = { " ", "\n", ",", "", "  x", "/", ";1//2 " };
        for (int k = 0; k < n; k++) {
          T a = number(s.at(1) + k, s.at(2) + k), b = number(s.at(1) / 7 + k, s.at(2) / 3 + k);
          if (b == 0)
            b = 1;
          // parsing does not reduce: every pair can be built
          RationalNum<T> x;
          std::istringstream is(str(a, b));
          is >> x;
          if (!is || !is_eq(x, a, b))
            r.fail("refused", "reading '%s' failed or gave %s", str(a, b).c_str(), str(x.GetNum(), x.GetDen()).c_str());
          if ((s.at(9) & 3) == 1)
            os << std::showpos;
          if ((s.at(9) & 3) == 2)
            os << std::setw(25);
          auto before = os.str().size();
          os << x;
          // what was written says the same
          auto said = os.str().substr(before);
          auto p = parse<T>(said, 0);
          if (!p.ok || p.num * b != p.den * (wide)a)
            r.fail("written", "writing %s produced '%s'", str(a, b).c_str(), said.c_str());
          os << seps[(uint64_t)s.at(8) % 7];
        }
        std::string bytes = os.str();
        if (s.at(6) >= 0 && !bytes.empty()) {
          bytes[(uint64_t)s.at(6) % bytes.size()] = (char)s.at(7);
          r.fault("corrupt-byte");
        }
        int64_t cut = s.at(4) < 0 ? -1 : (int64_t)((uint64_t)s.at(4) % (bytes.size() + 1));
        bool error = (s.at(5) & 1) && cut >= 0 && (size_t)cut < bytes.size();
        PieceBuf buf(bytes, (uint64_t)s.at(2), (int)((uint64_t)s.at(3) % 64) + 1, cut, s.at(5) & 1);
        if (cut >= 0) {
          bytes.resize((size_t)cut);
          r.fault(error ? "stream-error" : "stream-cut");
        }
        if (s.at(3) < 20)
          r.fault("delivered-in-pieces");
        std::istream in(&buf);
        if (s.at(10) & 1)
          in.exceptions(std::ios::failbit | std::ios::badbit);
        read_all(in, bytes, error, s.at(0), "from a stream in pieces", [&] { return buf.consumed(); });
      } else if (s.op == "string") {
        // args: seed, kind, nth alloc, sticky, mutate count
        Rng g((uint64_t)s.at(0));
        T a = number(s.at(1), s.at(0)), b = number(s.at(1) / 7, s.at(0) / 3);
        std::string text = str(a, b);
        for (int64_t k = 0; k < s.at(4) % 4; k++)
          switch (g.below(4)) {
            case 0:
              text.insert(g.below(text.size() + 1), 1, "0123456789/-+ .eax"[g.below(18)]);
              break;
            case 1:
              if (!text.empty())
                text.erase(g.below(text.size()), 1);
              break;
            case 2:
              if (!text.empty())
                text[g.below(text.size())] = (char)g.range(1, 255);
              break;
            default:
              text.resize(g.below(text.size() + 1));
          }
        auto p = parse<T>(text, 0);
        auto x = target(s.at(1));
        auto before = x;
        bool threw = false;
        uint64_t oom = 0;
        try {
          sim::mem::Scope scope(s.at(2), s.at(3) & 1);
          try {
            bwsl::FromString(text, x);
          } catch (...) {
            oom = sim::mem::failures();
            throw;
          }
          oom = sim::mem::failures();
        } catch (const std::exception&) {
          threw = true;
        }
        if (oom)
          r.fault("out-of-memory");
        if (x.GetDen() == 0)
          r.fail("zero-denominator", "converting '%s' left a zero denominator", text.c_str());
        if (threw) {
          refused++;
          if (x.GetNum() != before.GetNum() || x.GetDen() != before.GetDen())
            r.fail("changed", "a failed conversion of '%s' changed the target", text.c_str());
          if (p.canonical && p.to_end && !oom)
            r.fail("refused", "converting '%s' failed", text.c_str());
          r.probe("conversion-refused");
        } else {
          if (!p.ok)
            r.fail("accepted", "converting '%s' was accepted as %s", text.c_str(), str(x.GetNum(), x.GetDen()).c_str());
          if (!is(x, p.num, p.den))
            r.fail("value", "converting '%s' gave %s", text.c_str(), str(x.GetNum(), x.GetDen()).c_str());
          accepted++;
        }
      } else if (s.op == "text") {
        // args: seed, kind, nth alloc, sticky, country
        T a = number(s.at(1), s.at(0)), b = number(s.at(1) / 7, s.at(0) / 3);
        if (b == 0)
          b = 1;
        RationalNum<T> x;
        std::istringstream(str(a, b)) >> x;
        // written and read by streams of one country
        auto where = country(s.at(4));
        std::stringstream io;
        io.imbue(where);
        io << x;
        auto y = target(s.at(1));
        io >> y;
        if (io.fail() || !is(y, a, b))
          r.fail("locale", "%s, written as '%s' and read by one stream, %s%s", str(a, b).c_str(), io.str().c_str(), io.fail() ? "is refused" : "gives ", io.fail() ? "" : str(y.GetNum(), y.GetDen()).c_str());
        // the string form
        auto keep = std::locale::global(where);
        std::string text;
        bool oom = false;
        try {
          sim::mem::Scope scope(s.at(2), s.at(3) & 1);
          text = bwsl::ToString(x);
        } catch (const std::bad_alloc&) {
          oom = true;
          r.fault("out-of-memory");
        }
        bool refused_ = false;
        y = target(s.at(1));
        try {
          if (!oom)
            bwsl::FromString(text, y);
        } catch (const std::exception&) {
          refused_ = true;
        }
        std::locale::global(keep);
        if (!oom && (refused_ || !is(y, a, b)))
          r.fail("text", "the text '%s' of %s %s%s", text.c_str(), str(a, b).c_str(), refused_ ? "is refused" : "gives ", refused_ ? "" : str(y.GetNum(), y.GetDen()).c_str());
        accepted++;
      } else if (s.op == "write") {
        // args: seed, kind, room, throws, exceptions
        T a = number(s.at(1), s.at(0)), b = number(s.at(1) / 7, s.at(0) / 3);
        if (b == 0)
          b = 1;
        RationalNum<T> x;
        std::istringstream(str(a, b)) >> x;
        LimitBuf buf(s.at(2), s.at(3) & 1);
        std::ostream os(&buf);
        if (s.at(4) & 1)
          os.exceptions(std::ios::failbit | std::ios::badbit);
        bool threw = false;
        try {
          os << x;
        } catch (const std::exception&) {
          threw = true;
        }
        auto p = parse<T>(buf.data, 0);
        bool whole = p.ok && p.end == buf.data.size() && p.num * (wide)b == p.den * (wide)a;
        if (buf.failed) {
          r.fault("write-failed");
          refused++;
          if (os.good() && !threw)
            r.fail("unnoticed", "writing %s into a stream that took only %zu bytes left the stream good", str(a, b).c_str(), buf.data.size());
        } else {
          if (!os.good() || threw)
            r.fail("spurious", "writing %s failed although the stream took every byte", str(a, b).c_str());
          if (!whole)
            r.fail("written", "writing %s produced '%s'", str(a, b).c_str(), buf.data.c_str());
        }
      } else if (s.op == "file") {
        // args: seed, kind, n, faults on the write (12), faults on the read...
        std::vector<fs::Fault> wf, rf;
        for (size_t k = 3; k + 6 <= s.a.size() && k < 15; k += 6)
          wf.push_back(fs::decode(s.a, k));
        for (size_t k = 15; k + 6 <= s.a.size(); k += 6)
          rf.push_back(fs::decode(s.a, k));
        int n = 1 + (int)((uint64_t)s.at(2) % 3000);
        std::string want;
        fs::arm(wf);
        std::ofstream out("/simfs/r.txt");
        for (int k = 0; k < n; k++) {
          T a = number(s.at(1) + k, s.at(0) + k), b = number(s.at(1) / 7 + k, s.at(0) / 3 + k);
          if (b == 0)
            b = 1;
          RationalNum<T> x;
          std::istringstream(str(a, b)) >> x;
          out << x << '\n';
          want += str(a, b) + "\n";
        }
        out.close();
        auto wfired = fs::fired();
        fs::disarm();
        auto got = fs::exists("/simfs/r.txt") ? fs::get("/simfs/r.txt") : "";
        if (out.good() && got != want)
          r.fail("unnoticed", "the stream is good after %d rationals but the file is %s", n, got.size() < want.size() ? "incomplete" : "different");
        if (!out.good() && !wfired.errors && !wfired.crash)
          r.fail("spurious", "writing rationals to a file failed although nothing went wrong");
        if (!out.good())
          r.probe("file-write-failed");
        fs::arm(rf);
        std::ifstream in("/simfs/r.txt");
        if (in.is_open()) {
          size_t at = 0;
          for (int k = 0; k < n + 1; k++) {
            auto p = parse<T>(got, at);
            auto x = target(k);
            auto before = x;
            in >> x;
            auto fired = fs::fired();
            bool harmed = fired.errors || fired.crash;
            if (x.GetDen() == 0)
              r.fail("zero-denominator", "reading from a file left a zero denominator");
            if (in.fail()) {
              refused++;
              if (x.GetNum() != before.GetNum() || x.GetDen() != before.GetDen())
                r.fail("changed", "a failed read from a file changed the target");
              if (p.canonical && !harmed)
                r.fail("refused", "reading '%s' from a file failed", got.substr(at, p.end - at).c_str());
              if (harmed)
                r.probe("file-read-failed");
              break;
            }
            if (!p.ok)
              r.fail("accepted", "the end of a file was accepted as %s", str(x.GetNum(), x.GetDen()).c_str());
            if (!is(x, p.num, p.den))
              r.fail("value", "reading '%s' from a file gave %s", got.substr(at, p.end - at).c_str(), str(x.GetNum(), x.GetDen()).c_str());
            accepted++;
            at = p.end;
            if (in.eof())
              break;
          }
        }
        fs::disarm();
      }
      r.mix(refused);
      r.mix(accepted);
      r.state(sim::hmix(sim::hmix(sim::hstr(s.op), std::min<uint64_t>(refused, 50)), accepted));
    }
    if (refused)
      r.nontrivial();
  }
  static bool is_eq(RationalNum<T> const& x, T a, T b) { return is(x, a, b); }
};

void
exec(const Plan& p, Run& r)
{
  warm_up();
  fs::reset(&r);
  switch ((uint64_t)p.c(0) % 3) {
    case 0:
      return Sim<long>{ r }.run(p);
    case 1:
      return Sim<int>{ r }.run(p);
    default:
      return Sim<long long>{ r }.run(p);
  }
}

Plan
gen(Rng& g, bool thorough)
{
  Plan p;
  p.cfg = { g.range(0, 2) };
  for (int n = (int)g.range(1, thorough ? 40 : 20); n > 0; n--) {
    int64_t seed = (int64_t)(g.next() >> 8), kind = g.range(0, 62);
    switch (g.below(11)) {
      case 10:
        p.add("text", { seed, kind, g.chance(0.2) ? g.range(1, 3) : 0, g.range(0, 1), g.range(0, 35) });
        break;
      case 0:
      case 1:
        p.add("string", { seed, kind, g.chance(0.3) ? g.range(1, 6) : 0, g.range(0, 1), g.range(0, 3) });
        break;
      case 2:
      case 3:
        p.add("write", { seed, kind, g.chance(0.2) ? -1 : g.range(0, 30), g.range(0, 1), g.range(0, 1) });
        break;
      case 4: {
        if (!g.chance(thorough ? 0.6 : 0.3))
          break;
        std::vector<int64_t> a = { seed, kind, g.chance(0.5) ? g.range(0, 20) : g.range(0, 2999) };
        for (int q = 0; q < 2; q++) {
          fs::Fault f;
          f.op = g.chance(0.15) ? fs::kOpen : fs::kWrite;
          static const int w[] = { fs::kEINTR, fs::kShort, fs::kShort, fs::kEIO, fs::kENOSPC, fs::kCrash };
          f.what = f.op == fs::kOpen ? (int)fs::kOpenErr : w[g.below(6)];
          f.arg = g.range(1, 3000);
          f.nth = g.chance(0.5) ? 9999 : g.range(1, 6);
          f.count = g.range(1, 5);
          for (auto v : fs::encode(f))
            a.push_back(v);
        }
        for (int q = 0; q < 2; q++) {
          fs::Fault f;
          f.op = fs::kRead;
          static const int w[] = { fs::kEINTR, fs::kShort, fs::kShort, fs::kEIO };
          f.what = w[g.below(4)];
          f.arg = g.chance(0.5) ? g.range(1, 5) : g.range(1, 3000);
          f.nth = g.chance(0.3) ? 9999 : g.range(1, 8);
          f.count = f.what == fs::kShort ? 100000 : g.range(1, 4);
          for (auto v : fs::encode(f))
            a.push_back(v);
        }
        p.add("file", a);
        break;
      }
      default: {
        bool cut = g.chance(0.5), bad = g.chance(0.3);
        p.add("stream", { g.range(0, 3), kind, seed, g.chance(0.5) ? 0 : g.range(0, 63), cut ? g.range(0, 120) : -1, g.range(0, 1), bad ? g.range(0, 120) : -1, g.chance(0.6) ? (int64_t) "0123456789/-+ ,."[g.below(16)] : g.range(0, 255), g.range(0, 6), g.chance(0.8) ? 0 : g.range(0, 2), g.range(0, 1) });
      }
    }
  }
  return p;
}
}

const sim::CheckDef&
sim::check()
{
  static CheckDef d;
  d.property = "C10";
  d.rule = "Each run writes and reads rationals of one integer type (long, int, long long; values up to the limits of the type): through streams that deliver one to 64 bytes at a time, end or fail at a chosen byte, or hold a corrupted byte; through strings with up to three edits and failing allocations; into sinks that take a limited number of bytes; through the string form, and by streams of several countries; and through files on a simulated disk with failing, short and interrupted calls. Every read is compared with a hand-written parser applied to the bytes that could be delivered. Non-trivial: at least one read or write was refused.";
  d.state_measure = "(operation, refused so far, accepted so far)";
  d.real = { "bwsl/RationalNum.hpp", "libstdc++ streams" };
  d.stub = { "stream buffers (pieces, cuts, errors, limited room)", "system calls and disk", "operator new (failure injection)" };
  d.assumptions = { "white space inside, plus signs and leading zeros may be accepted or refused", "text after a rational in a converted string may be accepted or refused", "a number cut after one of its digits is a shorter number" };
  d.must_fire = { "corrupt-byte", "stream-error", "stream-cut", "delivered-in-pieces", "out-of-memory", "write-failed", "read-refused", "conversion-refused", "file-write-failed", "file-read-failed", "read-short", "read-EINTR", "write-short" };
  d.quick_runs = 40000;
  d.thorough_runs = 1000000;
  d.generate = gen;
  d.execute = exec;
  return d;
}
