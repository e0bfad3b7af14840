import json
import mc
import rtbot
from rtbot import rtbotapi as api

# A run of a program over a table, against an engine that follows a script, and against the real one.
RESPONSES = [{}, {"a": {"o1": [0]}}, {"a": {"o1": [0, 1]}}, {"a": {"o1": [0], "o2": [2]}, "b": {"o1": [3]}}, {"b": {"o1": []}}, {"b": {"o1": [0, 0]}}, {"a": {"o1": [4]}}]


OFF, SCALE = 0, 1  # times from OFF on, values scaled


def scaled(c, f):
    global OFF, SCALE
    OFF, SCALE = c.pick([0, 4294967290, 1700000000000, 1700000000123456789, 2**63 - 2000]), c.pick([1, 1e-9, 1e300, 1 / 3])
    try: f()
    finally: OFF, SCALE = 0, 1


def response(k, row):
    return {op: {p: [{"time": OFF + 100 * row + x, "value": None if x == 4 else (10 * row + x + 0.5) * SCALE} for x in ms] for p, ms in ps.items()} for op, ps in RESPONSES[k].items()}


class Scripted:
    def __init__(self, ports, creation, answers, fail_at):
        self.ports, self.creation, self.answers, self.fail_at = ports, creation, answers, fail_at
        self.programs, self.delivered, self.row, self.created, self.validated = {}, [], 0, [], []

    def has(self, i):
        if i not in self.programs: raise RuntimeError(f"Program {i} was not found")
        return self.programs[i]

    def validate(self, text): self.validated.append(text); return json.dumps({"valid": False, "error": "boom"} if self.creation == 1 else {"valid": True})
    def validateOperator(self, t, text): return '{"valid":true}'

    def createProgram(self, i, text):
        self.created.append(text)
        if self.creation == 1: return '{"valid":false,"error":"boom"}'
        if self.creation == 2: raise RuntimeError("boom")
        if self.creation == 3: return "Unable to parse program: boom"
        self.programs.setdefault(i, {}); return ""

    def deleteProgram(self, i): return "1" if self.programs.pop(i, None) is not None else "0"

    def addToMessageBuffer(self, i, port, time, value):
        p = self.has(i)
        if port not in self.ports: raise RuntimeError("no port " + port)
        p.setdefault(port, []).append((time, value)); return "1"

    def flush(self, i):
        m = dict(self.has(i)); self.programs[i] = {}; self.delivered.append(m); r = self.row; self.row += 1
        if r == self.fail_at: raise RuntimeError(f"the engine refuses row {r}")
        return json.dumps(response(self.answers[r] if r < len(self.answers) else 0, r))

    processMessageBuffer = processMessageBufferDebug = flush
    def getProgramEntryOperatorId(self, i): self.has(i); return "in"
    def getProgramEntryPorts(self, i): self.has(i); return json.dumps(self.ports)
    def getProgramOutputFilter(self, i): self.has(i); return "{}"


def same(a, b):
    """equal; a missing number is a nan"""
    if isinstance(a, dict) and isinstance(b, dict): return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list): return len(a) == len(b) and all(map(same, a, b))
    if a is None or b is None: return all(x is None or x != x for x in (a, b))
    return a == b


def collapse(outs):
    r = {}
    for o in outs:
        for op, ps in (o or {}).items():
            for p, ms in ps.items():
                for m in ms:
                    x = r.setdefault(f"{op}:{p}", {"time": [], "value": []}); x["time"].append(m["time"]); x["value"].append(m["value"])
    return r


def no_empty(r): return {k: v for k, v in r.items() if v["time"] or v["value"]}


BASE = {"entryOperator": "in", "apiVersion": "v1", "operators": [{"type": "Input", "id": "in", "numPorts": 2}, {"type": "MovingAverage", "id": "m", "n": 2}], "connections": [{"from": "in", "to": "m", "fromPort": "o1", "toPort": "i1"}]}
MEMBERS = {"title": "t", "description": "d", "date": "2024-02-28", "author": "a", "license": "l"}


def described(c):
    d = dict(BASE)
    for k, v in MEMBERS.items():
        if c.flip(): d[k] = v
    how = c.choose(2)

    def make():
        if how == 0: return rtbot.parse(json.dumps(d))
        p = rtbot.Program(entryOperator="in", **{k: v for k, v in d.items() if k in MEMBERS})
        from rtbot import operators as op
        p.addOperator(op.Input("in", 2)); p.addOperator(op.MovingAverage("m", 2)); p.addConnection("in", "m"); return p
    return d, make, f"{['from text', 'built'][how]} {json.dumps(d)}"


def attempt(f):
    try: return f(), ""
    except mc.Fail: raise
    except Exception as e: return None, f"{type(e).__name__}: {e}"


def scripted(c, max_rows, faults):
    creation = c.choose(4) if faults else 0; np = 1 if creation else 1 + c.choose(2); rows = 2 if creation else c.choose(max_rows + 1)
    answers = [c.choose(3 if faults else len(RESPONSES)) for _ in range(0 if creation else rows)]; fail_at = c.choose(rows + 1) if faults and not creation and rows else rows
    d, make, how = described(c) if faults and rows < 2 else (BASE, lambda: rtbot.parse(json.dumps(BASE)), "from text")
    ports = ["i1", "i2"][:np]; data = [[OFF + 3 * r + 1] + [(r * 10 + p + 0.25) * SCALE for p in range(np)] for r in range(rows)]
    text = f"{how}, {rows} rows of {np} values, answers {answers}{['', ', creation is refused', ', creation throws', ', creation answers text'][creation]}{f', row {fail_at} fails' if fail_at < rows else ''}"; c.log(lambda: text)
    e = api.engine = Scripted(ports, 0 if creation == 1 else creation, answers, fail_at)
    program, err = attempt(make); c.check(not err, "program refused", lambda: f"{text}\n  the program can not be built: {err}"); e.creation = creation
    for v in e.validated: mc_described(c, text, json.loads(v), d)
    out, err = attempt(lambda: rtbot.Run(program, data).exec()); c.step(rows + 2); api.engine = None
    fails = creation > 0 or fail_at < rows; c.check(bool(err) == fails, "no error" if fails else "error", lambda: f"{text}\n  the run {'failed with ' + err if err else 'did not fail'}")
    if creation == 1: c.check("boom" in err, "error lost", lambda: f"{text}\n  the run failed with {err} instead of the reason given")
    c.check(not e.programs, "program left behind", lambda: f"{text}\n  the program still exists after the run")
    for t in e.created: mc_described(c, text, json.loads(t), d)
    want = [{p: [(r[0], r[1 + i])] for i, p in enumerate(ports)} for r in data[:0 if creation else min(rows, fail_at + 1)]]; c.check(e.delivered == want, "rows", lambda: f"{text}\n  the engine was sent {e.delivered}, expected {want}")
    if not fails:
        exp = collapse([response(k, r) for r, k in enumerate(answers)]); c.check(same(no_empty(out), exp), "outputs", lambda: f"{text}\n  returned {out}, the program emitted {exp}")
    c.state(text); c.outcome(err + repr(out))


def mc_described(c, text, sent, d):
    for k in d: c.check(sent.get(k) == d[k], "not as described", lambda: f"{text}\n  \"{k}\" was sent as {sent.get(k)}")


FAMILY = [(BASE, 2),
  ({"entryOperator": "in", "operators": [{"type": "Input", "id": "in"}, {"type": "Difference", "id": "d"}, {"type": "Count", "id": "k"}], "connections": [{"from": "in", "to": "d"}, {"from": "d", "to": "k"}]}, 1),
  ({"entryOperator": "in", "date": "2024-02-28", "operators": [{"type": "Input", "id": "in", "numPorts": 2}, {"type": "Division", "id": "p"}], "connections": [{"from": "in", "to": "p", "fromPort": "o1", "toPort": "i1"}, {"from": "in", "to": "p", "fromPort": "o2", "toPort": "i2"}]}, 2),
  ({"entryOperator": "j", "operators": [{"type": "Join", "id": "j", "numPorts": 2}, {"type": "CumulativeSum", "id": "s"}], "connections": [{"from": "j", "to": "s", "fromPort": "o2"}]}, 2),
  ({"entryOperator": "r", "operators": [{"type": "ConstantResampler", "id": "r", "interval": 1}], "connections": []}, 1),
  ({"entryOperator": "in", "operators": [{"type": "Input", "id": "in", "numPorts": 11}, {"type": "Identity", "id": "x"}], "connections": [{"from": "in", "to": "x", "fromPort": "o10"}]}, 11)]


class Recorded:
    def __init__(self): self.ids = []
    def __getattr__(self, f):
        def g(*a):
            if f == "createProgram": self.ids.append(a[0])
            return api.native("." + f, *a)
        return g


def gone(i): return attempt(lambda: api.native("getProgramEntryOperatorId", i))[1] != ""


def real(c, max_rows):
    d, np = c.pick(FAMILY); rows = c.choose(max_rows + 1); t = 0; data = []
    for _ in range(rows):
        t += 1 + c.choose(2); data.append([OFF + t] + [(c.pick([0, -1.5, 4]) if p < 2 else p) * SCALE for p in range(np)])
    text = f"{json.dumps(d)} over {data}"; c.log(lambda: text); api.native("deleteProgram", "ref"); api.native("createProgram", "ref", json.dumps(d)); ports = json.loads(api.native("getProgramEntryPorts", "ref"))
    outs = [json.loads(api.native("processBatchDebug", "ref", [r[0]] * np, r[1:], ports)) for r in data]; api.native("deleteProgram", "ref")
    e = api.engine = Recorded(); out, err = attempt(lambda: rtbot.Run(rtbot.parse(json.dumps(d)), data).exec()); c.step(rows + 2); api.engine = None
    c.check(not err, "error", lambda: f"{text}\n  the run failed with {err}")
    for i in e.ids: c.check(gone(i), "program left behind", lambda: f"{text}\n  the program still exists after the run")
    exp = collapse(outs); c.check(same(no_empty(out), exp), "outputs", lambda: f"{text}\n  returned {out}, the program emitted {exp}"); c.state(text); c.outcome(repr(out))


def refused(c):
    bad = [{}, {"entryOperator": None}, {"entryOperator": "x"}, {"operators": [{"type": "Nope", "id": "in"}]}, {"operators": [{"type": "Input", "id": "in", "numPorts": 0}]}, {"connections": [{"from": "in", "to": "zz"}]}, {"connections": [{"from": "in", "to": "m", "fromPort": "o9"}]}, {"title": 3}]
    x = c.pick(bad); d = {**BASE, **x} if x else {}; rows = c.choose(3); way = c.choose(2); e = api.engine = Recorded()
    out, err = attempt(lambda: rtbot.Run(rtbot.parse(json.dumps(d)) if way else rtbot.Program(**d), [[r + 1, 2, 3] for r in range(rows)]).exec()); api.engine = None; c.step()
    c.log(lambda: f"{d}: {err}"); c.check(err, "no error", lambda: f"{d} was run without an error: {out}"); c.state(f"{d}{rows}{way}"); c.outcome(err)
    for i in e.ids: c.check(gone(i), "program left behind", lambda: f"{d}: the program exists after the failed run")


m = mc.Main()
m.bounds = "tables of up to 4 rows (5 thorough) and 2 columns against an engine that gives each of 7 answers to every row; creation refused in 3 ways, failure at every row, programs from text and built, every subset of descriptive members; 6 real programs (up to 11 entry ports) over all tables of up to 2 rows (3 thorough) from 3 values and 2 time steps; the same with times up to 2^63 and values from 1e-9 to 1e300; 8 programs the engine refuses"
m.assumptions = ["pybind11 is not installed: the module rtbotapi forwards to the native engine (or a scripted one) through ctypes", "programs with an output filter are not covered in Python: its Program class has no such member and refuses them", "JSON has no infinite or undefined numbers: they arrive as null and are expected as nan"]
m.add("scripted engine", lambda c: scripted(c, 4, False)); m.add("scripted engine, failures", lambda c: scripted(c, 4, True)); m.add("real engine", lambda c: real(c, 2)); m.add("scripted engine, other scales", lambda c: scaled(c, lambda: scripted(c, 2, False))); m.add("real engine, other scales", lambda c: scaled(c, lambda: real(c, 2))); m.add("refused", refused)
m.add("scripted engine, deep", lambda c: scripted(c, 5, False), True); m.add("real engine, deep", lambda c: real(c, 3), True)
m.main()
