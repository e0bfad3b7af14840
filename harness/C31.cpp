#include "api.h"
using namespace hx;
// Two programs from the same definition: one is sent valid and unacceptable messages, the other only the valid ones.
// Every unacceptable one must be answered with an error, and nothing else may differ: checkpoints (byte for byte), buffers, outputs.
static const vector<string>& progs() { static const vector<string> v = {
  R"({"entryOperator":"in","operators":[{"type":"Input","id":"in"},{"type":"CumulativeSum","id":"s"}],"connections":[{"from":"in","to":"s"}]})",
  R"({"entryOperator":"in","output":{"s":["o1"],"j":["o2"]},"operators":[{"type":"Input","id":"in","numPorts":2},{"type":"Join","id":"j","numPorts":2},{"type":"MovingAverage","id":"s","n":2}],"connections":[{"from":"in","to":"j","fromPort":"o1","toPort":"i1"},{"from":"in","to":"j","fromPort":"o2","toPort":"i2"},{"from":"j","to":"s","fromPort":"o1"}]})",
  R"({"entryOperator":"e","operators":[{"type":"Linear","id":"e","coeff":[1,2]},{"type":"Count","id":"k"}],"connections":[{"from":"e","to":"k"}]})",
  R"({"entryOperator":"e","operators":[{"type":"Pipeline","id":"e","prog":{"operators":[{"type":"MovingAverage","id":"a","n":2},{"type":"Minus","id":"b"}],"connections":[{"from":"a","to":"b","toPort":"i1"}]}},{"type":"Count","id":"k"}],"connections":[{"from":"e","to":"k"}]})"}; return v; }
static int ports(int kind) { return kind == 0 ? 1 : 2; }
static vector<string> unknownPorts(int kind) { vector<string> v = {"i0", "i3", "o1", "c1", "a", "x"}; if (ports(kind) > 1) v.push_back(""); else v.push_back("i2"); return v; }
enum { ADD, BUF, BUFD, MAP, MAPD, BATCH, BATCHD, NVALID };
static const char* vname_[] = {"buffer a message", "process the buffer", "process the buffer (debug)", "send a message map", "send a message map (debug)", "send a batch", "send a batch (debug)"};
enum { R_ADD, R_MAP, R_MAPMIX, R_MAPDMIX, R_BATCHPORT, R_BATCHDPORT, R_LEN, R_LEND, R_ADD_P, R_BUF_P, R_BUFD_P, R_MAP_P, R_MAPD_P, R_BATCH_P, R_BATCHD_P, NREJ };
static const char* rname_[] = {"buffer a message for port ", "send a map for port ", "send a map for the entry ports and port ", "send a map (debug) for the entry ports and port ", "send a batch with port ", "send a batch (debug) with port ", "send a batch of lengths ", "send a batch (debug) of lengths ",
  "buffer a message for an unknown program", "process the buffer of an unknown program", "process (debug) the buffer of an unknown program", "send a map to an unknown program", "send a map (debug) to an unknown program", "send a batch to an unknown program", "send a batch (debug) to an unknown program"};
struct World {
  Ctx& c; int kind; uint64_t clock = 10; string hist;
  World(Ctx& c, int kind) : c(c), kind(kind) { for (auto i : {"a", "b", "ghost"}) deleteProgram(i); put("a", progs()[kind]); put("b", progs()[kind]); }
  ~World() { for (auto i : {"a", "b", "ghost"}) try { deleteProgram(i); } catch (...) {} }
  M msg() { M m{clock / ports(kind), (double)(clock % 7) - 2}; clock++; return m; }
  string port() { return "i" + to_string(1 + (clock % ports(kind))); }
  void both(const string& what, std::function<string(const string&)> f) {
    c.step(2); string ra, rb, ea = err([&] { ra = f("a"); }), eb = err([&] { rb = f("b"); }); hist += (hist.empty() ? "" : "; ") + what;
    c.check(ea.empty() && eb.empty(), "valid call failed", [&] { return hist + "\n  failed: " + ea + eb; });
    c.check(ra == rb, "later output differs", [&] { return hist + "\n  answered " + ra + ", without the rejected calls it is " + rb; }); c.outcome(mc::mixs(1, ra)); }
  void same() { auto a = serializeProgram("a"), b = serializeProgram("b"); c.check(a == b, "state differs", [&] { return hist + "\n  the state of the program differs from that without the rejected calls"; }); uint64_t h = kind; for (auto x : a) h = mc::mix(h, x); c.state(h); }
  void valid(int k) {
    MMap mm; Batch b; string p = port(); M m = msg();
    if (k == MAP || k == MAPD) { mm[p].push_back(zoo::Msg(m.t, m.v)); if (ports(kind) > 1) { string q = port(); M n = msg(); mm[q].push_back(zoo::Msg(n.t, n.v)); } }
    if (k == BATCH || k == BATCHD) for (int i = 0; i < 3; i++) { b.t.push_back(m.t); b.v.push_back(m.v); b.p.push_back(p); p = port(); m = msg(); }
    both(vname_[k], [&](const string& id) { switch (k) { case ADD: return addToMessageBuffer(id, p, m.t, m.v); case BUF: return processMessageBuffer(id); case BUFD: return processMessageBufferDebug(id); case MAP: return processMessageMap(id, mm); case MAPD: return processMessageMapDebug(id, mm); case BATCH: return processBatch(id, b.t, b.v, b.p); default: return processBatchDebug(id, b.t, b.v, b.p); } });
    same();
  }
  // the unacceptable calls use times and values that would matter if they were taken in
  void reject(int k) {
    M m{clock / ports(kind) + 1, 5}; string what = rname_[k]; std::function<void()> f; auto up = unknownPorts(kind); Batch b; MMap mm; string bad;
    for (int i = 1; i <= ports(kind); i++) { mm["i" + to_string(i)].push_back(zoo::Msg(m.t, m.v)); b.add({i, m}); } b.add({1, M{m.t + 1, 6}});
    if (k == R_ADD || k == R_MAP || k == R_MAPMIX || k == R_MAPDMIX || k == R_BATCHPORT || k == R_BATCHDPORT) { bad = c.pick(up); what += "\"" + bad + "\""; }
    if (k == R_BATCHPORT || k == R_BATCHDPORT) b.p[c.choose((int)b.p.size())] = bad;
    if (k == R_LEN || k == R_LEND) { int x = c.choose(9); auto cut = [](auto& v) { v.pop_back(); };
      if (x == 0) cut(b.t); else if (x == 1) cut(b.v); else if (x == 2) cut(b.p); else if (x == 3) cut(b.t), cut(b.v); else if (x == 4) cut(b.t), cut(b.p); else if (x == 5) cut(b.v), cut(b.p); else if (x == 6) b.t.clear(); else if (x == 7) b.v.clear(); else b.p.clear();
      what += to_string(b.t.size()) + "/" + to_string(b.v.size()) + "/" + to_string(b.p.size()); }
    if (k == R_MAPMIX || k == R_MAPDMIX) mm[bad].push_back(zoo::Msg(m.t, m.v)); MMap only; only[bad].push_back(zoo::Msg(m.t, m.v));
    string r; c.step(); string e = err([&] { switch (k) {
      case R_ADD: r = addToMessageBuffer("a", bad, m.t, m.v); break; case R_MAP: r = processMessageMap("a", only); break; case R_MAPMIX: r = processMessageMap("a", mm); break; case R_MAPDMIX: r = processMessageMapDebug("a", mm); break;
      case R_BATCHPORT: case R_LEN: r = processBatch("a", b.t, b.v, b.p); break; case R_BATCHDPORT: case R_LEND: r = processBatchDebug("a", b.t, b.v, b.p); break;
      case R_ADD_P: r = addToMessageBuffer("ghost", "i1", m.t, m.v); break; case R_BUF_P: r = processMessageBuffer("ghost"); break; case R_BUFD_P: r = processMessageBufferDebug("ghost"); break; case R_MAP_P: r = processMessageMap("ghost", mm); break; case R_MAPD_P: r = processMessageMapDebug("ghost", mm); break;
      case R_BATCH_P: r = processBatch("ghost", b.t, b.v, b.p); break; default: r = processBatchDebug("ghost", b.t, b.v, b.p); } });
    hist += (hist.empty() ? "" : "; ") + string("REJECTED: ") + what;
    c.check(!e.empty(), "no error", [&] { return hist + "\n  was not answered with an error but with " + r; });
    same();
  }
  void any(bool fewRejected) { int n = fewRejected ? 6 : NREJ; static const int few[] = {R_ADD, R_MAPMIX, R_BATCHPORT, R_LEN, R_BATCH_P, R_ADD_P}; int x = c.choose(NVALID + n); if (x < NVALID) valid(x); else reject(fewRejected ? few[x - NVALID] : x - NVALID); }
  void finish() { c.log([&] { return progs()[kind] + "\n" + hist; }); hist += "; then"; both("process the buffer", [&](const string& i) { return processMessageBuffer(i); }); same(); for (int k : {MAPD, BATCHD, ADD, BUFD}) valid(k);
    if (c.flip()) { c.check(gone("ghost"), "unknown program came to life", [&] { return hist + "\n  the program that was never created exists"; }); put("ghost", progs()[kind]); string r = processMessageBufferDebug("ghost"); c.check(flatJson(r).empty(), "messages for an unknown program were kept", [&] { return hist + "\n  the program created later answers " + r; });
      Batch b; M m{3, 1}; for (int i = 1; i <= ports(kind); i++) b.add({i, m}); put("b2", progs()[kind]); string x = processBatchDebug("ghost", b.t, b.v, b.p), y = processBatchDebug("b2", b.t, b.v, b.p); deleteProgram("b2"); c.check(x == y, "messages for an unknown program were kept", [&] { return hist + "\n  the program created later answers " + x + " instead of " + y; }); } }
};
// single operators: unacceptable messages between valid ones
static void onOperator(Ctx& c, const Def& d, int len) {
  auto a = d.real("x"), b = d.real("x"); uint64_t t = 10; string hist; int where = c.choose(len + 1), np = d.nin + d.nctl; static const vector<string> bad = {"i0", "i9", "o1", "c9", "x", "", "c1", "i1", "i2", "c2"};
  string p = c.pick(bad); bool ctl = c.flip(); string key = (ctl ? "c" : "i"); int n = ctl ? d.nctl : d.nin; bool known = p.size() == 2 && p[0] == key[0] && p[1] >= '1' && p[1] - '0' <= n; if (known || (p.empty() && n == 1)) p = key + "77";
  vector<std::pair<int, uint64_t>> ev; for (int i = 0; i < len; i++) { int q = np > 1 ? c.choose(np) : 0; ev.push_back({q, t + i / np + (np > 1 ? 0 : i)}); }
  for (int i = 0; i <= len; i++) {
    if (i == where) for (int rep = 0; rep < 2; rep++) {
      auto before = a->collect();  // compared with itself, not with b: members never read before the first message have no defined value
      string e = err([&] { if (ctl) a->receiveControl(zoo::Msg(t + i + 1, 1), p); else a->receiveData(zoo::Msg(t + i + 1, 3), p); }); c.step();
      hist += string("; REJECTED: ") + (ctl ? "control" : "data") + " message for port \"" + p + "\""; c.check(!e.empty(), "no error", [&] { return d.name + hist + "\n  was not answered with an error"; });
      c.check(a->collect() == before, "state differs", [&] { return d.name + hist + "\n  the operator's state has changed"; });
      if (rep) { auto o = flat(a->executeData()); c.check(o.empty(), "output", [&] { return d.name + hist + "\n  executing it then emitted " + hx::str(o); }); }
    }
    if (i == len) break;
    auto& [q, at] = ev[i]; M m{at, d.type == "Demultiplexer" ? 1.0 : (double)((i * 3) % 5)}; c.step(2); hist += "; port " + to_string(q + 1) + " " + ref::str(m); Out x, y; string e1, e2;
    e1 = err([&] { x = zoo::feed(*a, q >= d.nin, q >= d.nin ? q - d.nin + 1 : q + 1, m); }); e2 = err([&] { y = zoo::feed(*b, q >= d.nin, q >= d.nin ? q - d.nin + 1 : q + 1, m); });
    c.check(e1 == e2 && exact(x, y), "later output differs", [&] { return d.name + hist + "\n  answered " + ref::str(x) + e1 + ", without the rejected message it is " + ref::str(y) + e2; }); if (!e1.empty()) break;
    c.outcome(ref::hash(x));
  }
  c.log([&] { return d.name + hist; }); c.state(mc::mixs(len, hist));
}
int main(int argc, char** argv) {
  mc::Main m; m.property = "C31";
  m.bounds = "4 programs (one and two entry ports, Linear and Pipeline as entry): EVERY history of 2 calls out of 7 valid and 15 unacceptable kinds (each with every unknown port name, position in the batch, combination of lengths), of 3 out of a smaller set (4 in thorough), from the start and with messages already received and buffered; every operator type: every unknown port between every valid history of up to 4 messages";
  m.parse(argc, argv);
  for (int k = 0; k < (int)progs().size(); k++) {
    string n = "program " + to_string(k + 1);
    m.add(n + ", all calls", [=](Ctx& c) { World w(c, k); for (int i = 0; i < 2; i++) w.any(false); w.finish(); });
    m.add(n + ", running, all calls", [=](Ctx& c) { World w(c, k); for (int x : {BATCH, ADD, ADD}) w.valid(x); for (int i = 0; i < 2; i++) w.any(false); w.finish(); });
    m.add(n + ", running, one rejected between others", [=](Ctx& c) { World w(c, k); for (int i = 0; i < 2; i++) w.valid(c.choose(NVALID)); w.reject(c.choose(NREJ)); w.valid(c.choose(NVALID)); w.finish(); });
    m.add(n + ", long", [=](Ctx& c) { World w(c, k); for (int i = 0; i < 3; i++) w.any(true); w.finish(); }, k != 1);
    m.add(n + ", deep", [=](Ctx& c) { World w(c, k); w.valid(ADD); for (int i = 0; i < 4; i++) w.any(true); w.finish(); }, true);
    m.add(n + ", all calls deep", [=](Ctx& c) { World w(c, k); for (int x : {BATCH, ADD}) w.valid(x); for (int i = 0; i < 3; i++) w.any(false); w.finish(); }, true);
  }
  vector<Def> all = zoo::unary(); for (auto& d : zoo::multi()) all.push_back(d); for (auto& d : {zoo::dVariable(0.5), zoo::dDemux(1), zoo::dDemux(2), zoo::dInput(1), zoo::dInput(2), zoo::dOutput(1), zoo::dOutput(2)}) all.push_back(d); for (auto& d : composites()) all.push_back(d); for (auto& d : pipelines()) all.push_back(d);
  for (auto& d : all) for (int len = 0; len <= 4; len++) m.add(d.name + ", " + to_string(len) + " messages", [=](Ctx& c) { onOperator(c, d, len); });
  return m.run();
}
