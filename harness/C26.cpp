#include "mutate.h"
#include "rtbot/FactoryOp.h"
using namespace hx;
// Every mutation of valid definitions.  A hand-written judge says which results are malformed in a way the property lists (BAD), which are
// certainly well formed (GOOD), and leaves the rest open: those must only not take the process down.
static const string& sane() { static const string s = R"({"entryOperator":"e","operators":[{"type":"Input","id":"e"},{"type":"CumulativeSum","id":"s"}],"connections":[{"from":"e","to":"s","fromPort":"o1","toPort":"i1"}]})"; return s; }
static const vector<string>& basePrograms() { static const vector<string> b = {
  R"({"entryOperator":"e","operators":[{"type":"Input","id":"e"},{"type":"CumulativeSum","id":"s"}],"connections":[{"from":"e","to":"s"}]})",
  R"({"entryOperator":"in","output":{"m":["o1"]},"operators":[{"type":"Input","id":"in","numPorts":2},{"type":"Join","id":"j","numPorts":2},{"type":"MovingAverage","id":"m","n":2},{"type":"Variable","id":"v","value":0.5}],"connections":[{"from":"in","to":"j","fromPort":"o1","toPort":"i1"},{"from":"in","to":"j","fromPort":"o2","toPort":"i2"},{"from":"j","to":"m","fromPort":"o2"},{"from":"m","to":"v","toPort":"c1"},{"from":"j","to":"v","fromPort":"o1","toPort":"i1"}]})",
  R"({"entryOperator":"in","operators":[{"type":"Input","id":"in"},{"type":"Pipeline","id":"p","prog":{"operators":[{"type":"Identity","id":"a"},{"type":"Scale","id":"b","value":2},{"type":"Minus","id":"c"}],"connections":[{"from":"a","to":"b"},{"from":"b","to":"c","toPort":"i1"}]}},{"type":"Count","id":"k"}],"connections":[{"from":"in","to":"p","toPort":"i1"},{"from":"in","to":"p","fromPort":"o1","toPort":"i2"},{"from":"p","to":"k"}]})",
  R"({"entryOperator":"in","operators":[{"type":"Input","id":"in"},{"type":"Linear","id":"l","coeff":[1,2]},{"type":"Demultiplexer","id":"d","numPorts":2},{"type":"Function","id":"f","points":[[0,0],[1,2]],"interpolationType":"linear"},{"type":"Constant","id":"one","value":1},{"type":"TimeShift","id":"t","dt":3,"times":1}],"connections":[{"from":"in","to":"l","toPort":"i1"},{"from":"in","to":"l","toPort":"i2"},{"from":"in","to":"one"},{"from":"one","to":"d","toPort":"c1"},{"from":"one","to":"d","toPort":"c2"},{"from":"l","to":"d","fromPort":"o1","toPort":"i1"},{"from":"d","to":"f","fromPort":"o2","toPort":"i1"},{"from":"f","to":"t"}]})"}; return b; }
static rtbot::FactoryOp& fac() { static rtbot::FactoryOp f; return f; }
static void attempt(Ctx& c, const string& text, Verdict want, const string& how) {
  c.log([&] { return how + "\n" + text + "\n" + (want == BAD ? "malformed" : want == GOOD ? "well formed" : "open"); }); c.outcome(want); c.state(mc::mixs(want, text));
  auto show = [&] { return how + ": " + text; };
  auto wrong = [&](const string& way, const string& refusal) { c.step();
    if (want == BAD) c.check(!refusal.empty(), way + " accepted a malformed program", [&] { return way + " did not report an error for " + show(); });
    if (want == GOOD) c.check(refusal.empty(), way + " refused a well formed program", [&] { return way + " refused with \"" + refusal + "\": " + show(); }); };
  string e = err([&] { rtbot::Program p(text); }); wrong("Program", e);
  e = err([&] { rtbot::Bytes b; uint64_t n = text.size(); b.insert(b.end(), (unsigned char*)&n, (unsigned char*)&n + 8); b.insert(b.end(), text.begin(), text.end()); fac().createProgram("q", b); }); wrong("creation from bytes", e);
  auto after = [&](const string& way, std::function<string()> entry, std::function<string(const string&)> create, std::function<Flat(const MMap&)> send, std::function<bool()> del) {
    if (!e.empty()) {
      c.check(!err([&] { entry(); }).empty(), way + ": refused but registered", [&] { return way + " refused, but the id exists afterwards: " + show(); });
      c.check(!err([&] { send(one(1, M{1, 1})); }).empty(), way + ": refused but takes messages", [&] { return way + " refused, but the id takes messages afterwards: " + show(); });
      c.check(!del(), way + ": refused but deleted", [&] { return way + " refused, but there was something to delete: " + show(); });
      string r, e2 = err([&] { r = create(sane()); }); c.check(r.empty() && e2.empty(), way + ": id unusable after refusal", [&] { return "after " + way + " refused, a valid program can not be created under the id (" + r + e2 + "): " + show(); });
      Flat f, w = {{"e:o1", {M{5, 2}, M{6, 3}}}, {"s:o1", {M{5, 2}, M{6, 5}}}}; MMap mm; mm["i1"] = {zoo::Msg(5, 2), zoo::Msg(6, 3)}; e2 = err([&] { f = send(mm); });
      c.check(e2.empty() && exact(f, w), way + ": program after refusal", [&] { return "after " + way + " refused, a valid program under the id answered " + hx::str(f) + e2 + ": " + show(); });
    } else c.check(err([&] { entry(); }).empty(), way + ": accepted but not registered", [&] { return way + " reported no error, but the id does not exist: " + show(); });
    del(); };
  fac().deleteProgram("q"); string r; e = err([&] { r = fac().createProgram("q", text); }); e += r; wrong("the factory", e);
  after("the factory", [] { return fac().getProgramEntryOperatorId("q"); }, [](const string& t) { return fac().createProgram("q", t); }, [](const MMap& m) { return flat(fac().processMessageMap("q", m)); }, [] { return fac().deleteProgram("q"); });
  deleteProgram("q"); r.clear(); e = err([&] { r = createProgram("q", text); }); e += r;
  if (want == BAD) wrong("the exported createProgram", e);
  after("the exported createProgram", [] { return getProgramEntryOperatorId("q"); }, [](const string& t) { return createProgram("q", t); }, [](const MMap& m) { return flatJson(processMessageMap("q", m)); }, [] { return deleteProgram("q") == "1"; });
}
static Verdict judgeText(const string& t) { json j = json::parse(t, nullptr, false); return j.is_discarded() ? BAD : judge(j, false); }
int main(int argc, char** argv) {
  mc::Main m; m.property = "C26";
  m.bounds = "4 programs (fan-in, control inputs, pipeline, output filter): EVERY single mutation of every node of the definition (left out, misnamed, duplicated, each of 24 values), every pair of mutations from a smaller pool; every truncation of the text, every character left out, doubled, replaced by each of 14; every operator type with every parameter left out or replaced; each tried as Program, from bytes, through FactoryOp and through the exported interface, after which the id must be unused and usable";
  m.assumptions = {"definitions the property does not speak of (duplicate ids, booleans for numbers, fractional sizes, zero ports) may be accepted or refused, but must not take the process down"};
  m.parse(argc, argv);
  for (size_t b = 0; b < basePrograms().size(); b++) {
    string n = "program " + to_string(b + 1);
    m.add(n, [=](Ctx& c) { json j = json::parse(basePrograms()[b]); if (judge(j, false) != GOOD) c.fail("judge", "the judge refuses the base program"); string h = mutate(c, j, pool()); attempt(c, j.dump(), judge(j, false), h); });
    m.add(n + ", text", [=](Ctx& c) { string t = basePrograms()[b]; static const string with = "{}[]\",:0-a. \\\x01"; int k = c.choose(3 + (int)with.size()); size_t at = c.choose((int)t.size()); string h = "at byte " + to_string(at) + ": ";
      if (k == 0) { t = t.substr(0, at); h += "cut off"; } else if (k == 1) { t.erase(at, 1); h += "left out"; } else if (k == 2) { t.insert(at, 1, t[at]); h += "doubled"; } else { t[at] = with[k - 3]; h += "replaced"; }
      attempt(c, t, judgeText(t), h); });
    m.add(n + ", pairs", [=](Ctx& c) { json j = json::parse(basePrograms()[b]); string h = mutate(c, j, b > 1 ? vector<json>{json(), "x"} : fewValues()); h += " and " + mutate(c, j, b > 1 ? vector<json>{-1} : fewValues()); attempt(c, j.dump(), judge(j, false), h); });
    m.add(n + ", pairs deep", [=](Ctx& c) { json j = json::parse(basePrograms()[b]); string h = mutate(c, j, b > 1 ? fewValues() : pool()); h += " and " + mutate(c, j, fewValues()); attempt(c, j.dump(), judge(j, false), h); }, true);
  }
  auto with = [](const json& op) { return json{{"entryOperator", "in"}, {"operators", json::array({json{{"type", "Input"}, {"id", "in"}}, op})}, {"connections", json::array()}}; };
  m.add("operators", [=](Ctx& c) { auto& d = c.pick(opDocs()); json op = example(d, "x"); string h = d.type + " " + mutate(c, op, pool()); json j = with(op); attempt(c, j.dump(), judge(j, false), h); });
  m.add("operators, connected", [=](Ctx& c) { auto& d = c.pick(opDocs()); json op = example(d, "x"), j = with(op); static const vector<string> in = {"", "i1", "i2", "i3", "i0", "c1", "c2", "c3", "o1", "I1", "i1 "}, out = {"", "o1", "o2", "o3", "o0", "i1"};
    json e = {{"from", c.flip() ? "x" : "in"}, {"to", c.flip() ? "x" : "in"}}; string fp = c.pick(out), tp = c.pick(in); if (!fp.empty() || c.flip()) e["fromPort"] = fp; if (!tp.empty() || c.flip()) e["toPort"] = tp; j["connections"] = json::array({e}); attempt(c, j.dump(), judge(j, false), "one connection"); });
  m.add("entry operators", [=](Ctx& c) { auto& d = c.pick(opDocs()); json op = example(d, "x"), j = with(op); j["entryOperator"] = "x"; if (c.flip()) mutate(c, j["operators"][1], pool()); attempt(c, j.dump(), judge(j, false), "entry " + d.type); });
  m.add("operators, two mutations", [=](Ctx& c) { auto& d = c.pick(opDocs()); json op = example(d, "x"); string h = d.type + " " + mutate(c, op, pool()) + " and " + mutate(c, op, fewValues()); json j = with(op); attempt(c, j.dump(), judge(j, false), h); });
  m.add("texts", [](Ctx& c) { static const vector<string> t = {"", " ", "null", "[]", "{}", "0", "\"x\"", "true", "nul", "{\"entryOperator\":\"e\"}", "\xff\xfe", string(200000, '['), string(1000, '{'), "{} {}", "//"}; auto& x = c.pick(t); attempt(c, x, BAD, "text"); });
  return m.run();
}
