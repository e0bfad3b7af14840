#include "common.h"
using namespace hx;
// Relational: the real operator against itself.  Per-port sequences are chosen first, then every interleaving is
// compared with the one that delivers port after port.
static std::function<void(Ctx&)> confluent(Def d, std::function<vector<Seq>(Ctx&)> gen) {
  return [d, gen](Ctx& c) {
    auto seqs = gen(c);
    auto run = [&](auto deliver) { auto op = d.real("op"); Out o; string err;
      deliver([&](bool ct, int p, M x) { if (!err.empty()) return; try { auto g = zoo::feed(*op, ct, p, x); ref::append(o, g); c.log([&] { return what(ct, p, x) + " -> " + ref::str(g); }); } catch (std::exception& e) { err = e.what(); } c.step(); });
      if (!err.empty()) c.fail(d.type + "/throws", "the operator threw: " + err);
      return o; };
    c.log([&] { return string("port by port:"); });
    vector<Seq> ord = seqs; std::stable_sort(ord.begin(), ord.end(), [](const Seq& a, const Seq& b) { return a.control > b.control; });
    Out canon = run([&](auto send) { for (auto& s : ord) for (auto& x : s.msgs) send(s.control, s.port, x); });
    c.log([&] { return string("interleaved:"); });
    Out got = run([&](auto send) { interleave(c, seqs, send); });
    c.outcome(ref::hash(got)); uint64_t h = 1; for (auto& s : seqs) h = mc::mix(h, ref::hash(s.msgs)); c.state(h);
    c.check(exact(canon, got), d.type + "/order", [&] { return "delivered port by port the operator emitted " + ref::str(canon) + ", in this interleaving " + ref::str(got); });
  };
}
static std::function<vector<Seq>(Ctx&)> subsets(int n, int slots, uint64_t base, int values = 0) {
  return [=](Ctx& c) { vector<Seq> s; if (values) { int v = c.choose(values); for (int p = 1; p <= n; p++) { Seq q{false, p, {}}; int mask = c.choose(1 << slots); for (int k = 0; k < slots; k++) if (mask >> k & 1) q.msgs.push_back(M{base + (uint64_t)k, v == 0 ? 2.0 : v == 1 ? k / 2 : v == 2 ? p + 0.0 : k % 2 ? -1.5 : 0.0}); s.push_back(q); } return s; } for (int p = 1; p <= n; p++) { Seq q{false, p, {}}; int mask = c.choose(1 << slots); for (int k = 0; k < slots; k++) if (mask >> k & 1) q.msgs.push_back(M{base + (uint64_t)k, (p * 3 + k * 5) % 7 - 2.0}); s.push_back(q); } return s; };
}
int main(int argc, char** argv) {
  mc::Main m; m.property = "C04";
  m.bounds = "per-port message sequences: every pair of subsets of a 5-slot timeline (2 ports), every triple of subsets of 3 slots (3 ports), 2 slots (4 ports); Demultiplexer with 1,2,3 controls and Variable with data and queries on a 4/5-slot timeline; values that differ, repeat or alternate; ALL interleavings of each";
  m.assumptions = {"each port receives strictly increasing times", "a demultiplexer's data messages have a control message with value 0 or 1 on every control port"};
  m.parse(argc, argv);
  vector<Def> two = {zoo::dJoin(2), zoo::dLinear({2, -1})}; for (auto& t : zoo::binaryTypes()) two.push_back(zoo::dPlain(t));
  for (auto& d : two) { bool j = d.type == "Join"; m.add(d.name, confluent(d, subsets(2, j ? 5 : 4, 1))); m.add(d.name + " deep", confluent(d, subsets(2, 5, 1)), true); }
  for (auto& d : two) m.add(d.name + " repeated values", confluent(d, subsets(2, 4, 1, 3))); for (auto& d : {zoo::dJoin(3), zoo::dLinear({1, 2, 4})}) m.add(d.name + " repeated values", confluent(d, subsets(3, 3, 1, 2)));
  m.add("Join2 2^63", confluent(two[0], subsets(2, 4, (1ull << 63) - 2)));
  for (auto& d : {zoo::dJoin(3), zoo::dLinear({1, 2, 4})}) { m.add(d.name, confluent(d, subsets(3, 3, 0))); }
  for (auto& d : {zoo::dJoin(4), zoo::dLinear({1, 2, 4, 8})}) { m.add(d.name, confluent(d, subsets(4, 2, 0))); }
  m.add("Join2 long", confluent(two[0], subsets(2, 6, 0)), true);
  auto dm = [](int n, int K, uint64_t b) { return [=](Ctx& c) { return demuxSeqs(c, n, K, b); }; };
  m.add("Demultiplexer1", confluent(zoo::dDemux(1), dm(1, 5, 0)));
  m.add("Demultiplexer2", confluent(zoo::dDemux(2), dm(2, 3, 1)));
  m.add("Demultiplexer3", confluent(zoo::dDemux(3), dm(3, 2, 1)));
  m.add("Demultiplexer1 deep", confluent(zoo::dDemux(1), dm(1, 7, 0)), true);
  for (uint64_t b : {(uint64_t)0, (uint64_t)1 << 53}) {
    auto gen = [b](int slots) { return [=](Ctx& c) { vector<Seq> s = {{false, 1, {}}, {true, 1, {}}}; for (auto& q : s) { int mask = c.choose(1 << slots); for (int k = 0; k < slots; k++) if (mask >> k & 1) q.msgs.push_back(M{b + (uint64_t)k, k + 0.5}); } return s; }; };
    m.add("Variable " + baseName(b), confluent(zoo::dVariable(0.25), gen(5)));
    m.add("Variable deep " + baseName(b), confluent(zoo::dVariable(0.25), gen(6)), true);
  }
  return m.run();
}
