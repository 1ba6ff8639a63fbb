// C06: move statistics account for every proposal exactly once.
#include "common.hpp"
#include <boost/serialization/vector.hpp>
#include <bwsl/mcutils/MoveResult.hpp>
#include <bwsl/mcutils/MoveStats.hpp>

using namespace chk;
namespace mc = bwsl::montecarlo;

namespace {

struct Model
{
  std::string name = "Unknown";
  bool pending = false;
  uint64_t proposed = 0, accepted = 0, rejected = 0, impossible = 0;
  std::vector<double> probs;
  uint64_t zeros = 0; // probabilities before those
  uint64_t answers() const { return probs.size() + zeros; }
  bool finite() const
  {
    for (double x : probs)
      if (!std::isfinite(x))
        return false;
    return true;
  }
};

/// The exposed state, bit by bit
std::string
image(const mc::MoveStats& s)
{
  return save(s, 1) + s.GetName();
}

void
verify(Run& r, const mc::MoveStats& s, const Model& m, int slot, const char* when)
{
  if (s.GetName() != m.name)
    r.fail("name", "slot %d %s: name is '%s', expected '%s'", slot, when, s.GetName().c_str(), m.name.c_str());
  auto ratio = [&](const char* what, double got, uint64_t n) {
    r.mixd(std::isnan(got) ? -1 : got);
    if (m.proposed == 0)
      return; // nothing proposed: no ratio is defined
    double want = (double)n / (double)m.proposed;
    if (!(std::fabs(got - want) <= 8 * kU * want))
      r.fail("ratio", "slot %d %s: %s ratio is %.17g, expected %llu/%llu", slot, when, what, got, (unsigned long long)n, (unsigned long long)m.proposed);
  };
  ratio("accepted", s.GetAcceptedRatio(), m.accepted);
  ratio("rejected", s.GetRejectedRatio(), m.rejected);
  ratio("impossible", s.GetImpossibleRatio(), m.impossible);
  if (m.answers()) {
    quad t = 0, ta = 0, n = (quad)m.answers(), k = (quad)m.probs.size();
    for (double x : m.probs) {
      t += x;
      ta += std::fabs(x);
    }
    double got = s.GetAverageProbability();
    r.mixd(got);
    if (!m.finite()) {
      if (std::isfinite(got))
        r.fail("probability", "slot %d %s: average probability %.17g although not all probabilities are finite", slot, when, got);
      r.probe("not-finite");
    }
    quad tol = (3 * kU + 8 * k * kU * kU) * ta / n + 4 * kU * qabs(t / n) + 1e-300;
    if (m.finite() && !within(got, t / n, tol))
      r.fail("probability", "slot %d %s: average probability %.17g, exact %.17g over %zu answers", slot, when, got, (double)(t / n), (size_t)m.answers());
  }
  // whether a proposal is pending shows in what the next call does
  auto c = s;
  bool refused = false;
  try {
    c.Propose();
  } catch (const mc::exception::MoveInvalidSequence&) {
    refused = true;
  }
  if (refused != m.pending)
    r.fail("pending", "slot %d %s: a proposal is %s, but the statistics %s the next one", slot, when, m.pending ? "pending" : "not pending", refused ? "refuse" : "accept");
}

/// Takes some bytes, then no more
struct Sink : std::streambuf
{
  std::string text;
  size_t room;
  explicit Sink(size_t n)
    : room(n)
  {
  }
  int overflow(int c) override
  {
    if (text.size() >= room)
      return traits_type::eof();
    if (c != traits_type::eof())
      text += (char)c;
    return 0;
  }
};

/// The printed form shows the name and, in this order, the figures
void
print(Run& r, const mc::MoveStats& s, const Model& m, int slot, int64_t room, int64_t nth)
{
  Sink sink(room < 0 ? SIZE_MAX : (size_t)room);
  std::ostream os(&sink);
  const auto before = image(s);
  bool oom = false;
  try {
    sim::mem::Scope scope(nth);
    os << s;
  } catch (const std::bad_alloc&) {
    oom = true;
    r.fault("out-of-memory-print");
  }
  if (image(s) != before)
    r.fail("changed", "slot %d: printing the statistics changed them", slot);
  if (oom)
    return;
  r.mixs(sink.text);
  if (!os) {
    if (room < 0 && !nth)
      r.fail("print", "slot %d: printing the statistics failed", slot);
    r.fault("print-to-full-sink");
    return;
  }
  auto at = sink.text.find(m.name);
  if (at == std::string::npos)
    r.fail("print", "slot %d: the printed form '%.200s' does not show the name '%s'", slot, sink.text.c_str(), m.name.c_str());
  if (m.proposed == 0 || !m.answers())
    return;
  at += m.name.size();
  quad t = 0;
  for (double x : m.probs)
    t += x;
  const double n = (double)m.proposed;
  const double want[] = { (double)m.accepted / n, (double)m.rejected / n, (double)m.impossible / n, (double)(t / (quad)m.answers()) };
  for (double w : want) {
    if (!std::isfinite(w))
      break; // not a number, however it is shown
    bool found = false;
    while (at < sink.text.size() && !found) {
      auto c = sink.text[at];
      if (c == '-' || c == '.' || isdigit((unsigned char)c)) {
        char* e;
        double v = strtod(sink.text.c_str() + at, &e);
        auto used = (size_t)(e - (sink.text.c_str() + at));
        at += std::max<size_t>(used, 1);
        found = used && std::fabs(v - w) <= 6e-4 * std::fabs(w) + 1e-12;
        if (used && !found)
          break;
      } else
        at++;
    }
    if (!found)
      r.fail("print", "slot %d: the printed form '%.300s' does not show %.6g in its place", slot, sink.text.c_str(), w);
  }
  r.probe("printed");
}

void
exec(const Plan& p, Run& r)
{
  warm_up();
  constexpr int N = 3;
  static const std::string names[] = { "", "worm", "a much longer name of a move that does not fit into a small string", "%s {} \n", "Unknown", std::string(700, 'w') };
  mc::MoveStats s[N] = { mc::MoveStats(names[(uint64_t)p.c(0) % 6]), mc::MoveStats(), mc::MoveStats(names[(uint64_t)p.c(1) % 6]) };
  Model m[N];
  m[0].name = names[(uint64_t)p.c(0) % 6];
  m[2].name = names[(uint64_t)p.c(1) % 6];
  uint64_t refusals = 0;
  for (auto& st : p.steps) {
    int i = (int)((uint64_t)st.at(0) % N), j = (int)((uint64_t)st.at(1) % N);
    double prob = bitsd(st.at(2));
    if (std::isfinite(prob) && std::fabs(prob) > 1e280)
      prob = 0.5;
    const int64_t nth = st.at(3);
    const bool sticky = st.at(4) & 1;
    r.mixs(st.op);
    bool threw = false;
    const bool answer = st.op == "accept" || st.op == "reject" || st.op == "impossible";
    const bool call = answer || st.op == "propose" || st.op == "add";
    if (call) {
      const bool legal = answer ? m[i].pending : !m[i].pending;
      const auto before = image(s[i]);
      uint64_t denied = 0;
      try {
        sim::mem::Scope scope(nth, sticky);
        try {
          if (st.op == "propose")
            s[i].Propose();
          else if (st.op == "accept")
            s[i].Accept(prob);
          else if (st.op == "reject")
            s[i].Reject(prob);
          else if (st.op == "impossible")
            s[i].Impossible();
          else
            s[i].Add((uint64_t)st.at(5) % 3 == 0   ? mc::MoveResult::Accept(prob)
                     : (uint64_t)st.at(5) % 3 == 1 ? mc::MoveResult::Reject(prob)
                                                   : mc::MoveResult::Impossible());
        } catch (...) {
          denied = sim::mem::failures();
          throw;
        }
      } catch (const mc::exception::MoveInvalidSequence& e) {
        threw = true;
        if (std::string(e.what()).find(m[i].name) == std::string::npos)
          r.fail("name", "the exception '%s' does not name the move '%s'", e.what(), m[i].name.c_str());
      } catch (const std::bad_alloc&) {
        threw = true;
        if (!denied)
          r.fail("exception", "%s reported out of memory without cause", st.op.c_str());
        r.fault("out-of-memory");
      }
      r.mix(threw);
      if (threw) {
        r.fault("illegal-sequence");
        refusals++;
        if (legal && !denied)
          r.fail("refused", "slot %d: %s was refused although it is legal", i, st.op.c_str());
        if (image(s[i]) != before)
          r.fail("changed", "slot %d: a refused %s changed the statistics", i, st.op.c_str());
      } else {
        if (!legal)
          r.fail("accepted", "slot %d: %s was accepted although a proposal is %s", i, st.op.c_str(), m[i].pending ? "pending" : "missing");
        auto& q = m[i];
        if (st.op == "propose") {
          q.proposed++;
          q.pending = true;
        } else if (answer) {
          (st.op == "accept" ? q.accepted : st.op == "reject" ? q.rejected : q.impossible)++;
          q.probs.push_back(st.op == "impossible" ? 0.0 : prob);
          q.pending = false;
        } else {
          q.proposed++;
          switch ((uint64_t)st.at(5) % 3) {
            case 0:
              q.accepted++;
              q.probs.push_back(prob);
              break;
            case 1:
              q.rejected++;
              q.probs.push_back(prob);
              break;
            default:
              q.impossible++;
              q.probs.push_back(0.0);
          }
        }
      }
    } else if (st.op == "reset") {
      s[i].Reset();
      auto name = m[i].name;
      m[i] = Model();
      m[i].name = name;
    } else if (st.op == "copy" || st.op == "copyctor") {
      bool failed = false;
      try {
        sim::mem::Scope scope(nth, sticky);
        if (st.op == "copy") {
          mc::MoveStats c(s[i]);
          s[j] = std::move(c);
        } else {
          mc::MoveStats c(s[i]);
          std::swap(s[j], c);
        }
      } catch (const std::bad_alloc&) {
        failed = true;
        r.fault("out-of-memory-copy");
      }
      if (!failed)
        m[j] = m[i];
    } else if (st.op == "assign") {
      s[j] = s[i];
      m[j] = m[i];
    } else if (st.op == "ckpt") {
      auto name = m[j].name;
      // text archives cannot express infinities
      const int fmt = m[i].finite() ? (int)st.at(2) : 1;
      load(s[j], save(s[i], fmt), fmt);
      m[j] = m[i];
      m[j].name = name; // the name is configuration
      r.fault("checkpoint-restore");
      if (m[j].pending)
        r.probe("restored-with-pending-proposal");
    } else if (st.op == "age") {
      // very many moves with probability zero: the checkpoint of a short history
      // with its counts replaced
      Rng g((uint64_t)st.at(1));
      uint64_t c[3];
      for (auto& x : c)
        x = 3000 + (g.next() >> g.range(3, 50));
      mc::MoveStats y;
      for (int k = 0; k < 1013; k++)
        y.Add(mc::MoveResult::Accept(0.0));
      for (int k = 0; k < 907; k++)
        y.Add(mc::MoveResult::Reject(0.0));
      for (int k = 0; k < 811; k++)
        y.Add(mc::MoveResult::Impossible());
      size_t done = 0;
      auto t = reworded(save(y, 0), { { "1013", std::to_string(c[0]) }, { "907", std::to_string(c[1]) }, { "811", std::to_string(c[2]) }, { "2731", std::to_string(c[0] + c[1] + c[2]) } }, done);
      if (done < 3)
        continue;
      load(s[i], t, 0);
      auto name = m[i].name;
      m[i] = Model();
      m[i].name = name;
      m[i].accepted = c[0];
      m[i].rejected = c[1];
      m[i].impossible = c[2];
      m[i].proposed = m[i].zeros = c[0] + c[1] + c[2];
      r.probe("aged");
    } else if (st.op == "print") {
      print(r, s[i], m[i], i, st.at(1), nth);
    } else if (st.op == "many") {
      Rng g((uint64_t)st.at(2));
      if (m[i].pending) {
        s[i].Reject(0.25);
        m[i].rejected++;
        m[i].probs.push_back(0.25);
        m[i].pending = false;
      }
      for (int64_t k = 0; k < std::min<int64_t>(st.at(1), 5000); k++) {
        double x = g.chance(0.3) ? 0.1 : g.unit();
        m[i].proposed++;
        switch (g.below(3)) {
          case 0:
            s[i].Add(mc::MoveResult::Accept(x));
            m[i].accepted++;
            break;
          case 1:
            s[i].Add(mc::MoveResult(mc::MoveStatus::Rejected, x));
            m[i].rejected++;
            break;
          default:
            s[i].Add(mc::MoveResult::Impossible());
            m[i].impossible++;
            x = 0.0;
        }
        m[i].probs.push_back(x);
      }
    }
    for (int k = 0; k < N; k++)
      verify(r, s[k], m[k], k, ("after " + st.op).c_str());
    uint64_t h = 0;
    for (int k = 0; k < N; k++)
      h = sim::hmix(h, std::min<uint64_t>(m[k].proposed, 4) * 1000 + std::min<uint64_t>(m[k].accepted, 3) * 100 + std::min<uint64_t>(m[k].rejected, 3) * 10 + std::min<uint64_t>(m[k].impossible, 3) * 2 + m[k].pending);
    r.state(h);
  }
  // results of moves are plain values
  for (auto& st : p.steps) {
    double prob = bitsd(st.at(2));
    if (!std::isfinite(prob))
      continue;
    auto a = mc::MoveResult::Accept(prob), b = mc::MoveResult::Reject(prob), c = mc::MoveResult::Impossible();
    if (!a.IsAccepted() || a.IsRejected() || a.IsImpossible() || !b.IsRejected() || b.IsAccepted() || b.IsImpossible() || !c.IsImpossible() || c.IsAccepted() || c.IsRejected() || a.Probability() != prob || b.Probability() != prob || c.Probability() != 0.0)
      r.fail("result", "a move result does not report what it was built from");
    break;
  }
  if (refusals)
    r.nontrivial();
}

Plan
gen(Rng& g, bool thorough)
{
  Plan p;
  p.cfg = { g.range(0, 5), g.range(0, 5) };
  int n = (int)g.range(3, thorough ? 90 : 45);
  bool wild = g.chance(0.3); // no regard for the protocol
  // ratios of weights, which may be of any size and even overflow
  static const double units[] = { 1, 1, 1, 0x1p-60, 0x1p60, 0x1p900 };
  const double unit = units[g.below(6)];
  const bool odd = g.chance(0.1);
  for (int k = 0; k < n; k++) {
    int64_t i = g.chance(0.6) ? 0 : g.range(0, 2), j = g.range(0, 2);
    static const double odds[] = { INFINITY, NAN, -0.0, 5e-324 };
    int64_t x = dbits(odd && g.chance(0.1) ? odds[g.below(4)] : unit * (g.chance(0.2) ? 0.1 : g.chance(0.1) ? 1.0 : g.unit()));
    int64_t nth = g.chance(0.2) ? g.range(1, 4) : 0, sticky = g.range(0, 1);
    static const char* answers[] = { "accept", "reject", "impossible" };
    switch (g.below(16)) {
      case 15:
        p.add("age", { i, (int64_t)(g.next() >> 1) });
        break;
      case 14:
        p.add("print", { i, g.chance(0.7) ? -1 : g.range(0, 90), 0, nth });
        break;
      case 0:
      case 1:
      case 2:
      case 3:
      case 4:
        p.add("propose", { i, j, x, nth, sticky });
        if (!wild && g.chance(0.8))
          p.add(answers[g.below(3)], { i, j, x, nth, sticky });
        break;
      case 5:
      case 6:
        p.add(answers[g.below(3)], { i, j, x, nth, sticky });
        break;
      case 7:
      case 8:
        p.add("add", { i, j, x, nth, sticky, g.range(0, 2) });
        break;
      case 9:
        p.add("reset", { i });
        break;
      case 10:
        p.add(g.chance(0.4) ? "copy" : g.chance(0.5) ? "copyctor" : "assign", { i, j, 0, nth, sticky });
        break;
      case 11:
      case 12:
        p.add("ckpt", { i, j, g.range(0, 1) });
        break;
      default:
        p.add("many", { i, g.range(1, g.chance(0.1) ? 3000 : 60), (int64_t)(g.next() >> 1) });
    }
  }
  return p;
}
}

const sim::CheckDef&
sim::check()
{
  static CheckDef d;
  d.property = "C06";
  d.rule = "Each run is a seeded sequence of proposals, answers, whole results, resets, copies, assignments and checkpoint cycles on three move statistics, respecting the protocol or not, with allocations failing inside the calls; after every step all ratios, the average probability, the pending flag and the name are compared with a model, and so is the printed form, also on sinks that fill up. Non-trivial: at least one call was refused.";
  d.state_measure = "(clipped proposed/accepted/rejected/impossible counts and pending flag of each object)";
  d.real = { "bwsl/mcutils/MoveStats.hpp, MoveResult.hpp, MoveStatus.hpp", "bwsl/accumulators/KahanAccumulator.hpp", "boost archives", "fmt" };
  d.stub = { "operator new (failure injection)", "archive storage (memory)" };
  d.assumptions = { "ratios of an object without proposals are not defined" };
  d.must_fire = { "illegal-sequence", "out-of-memory", "out-of-memory-copy", "out-of-memory-print", "print-to-full-sink", "printed", "aged", "checkpoint-restore", "restored-with-pending-proposal", "not-finite" };
  d.quick_runs = 24000;
  d.thorough_runs = 400000;
  d.generate = gen;
  d.execute = exec;
  return d;
}
