import copy
import json
import mc
import rtbot
from rtbot import operators as ops

# Every sequence of additions to Python program objects, compared with plain lists.
MAKE = {"in": lambda: ops.Input("in", 2), "a": lambda: ops.Join("a", 2), "b": lambda: ops.MovingAverage("b", 2), "o": lambda: ops.Count("o")}
PLAIN = {"in": {"type": "Input", "id": "in", "numPorts": 2}, "a": {"type": "Join", "id": "a", "numPorts": 2}, "b": {"type": "MovingAverage", "id": "b", "n": 2}, "o": {"type": "Count", "id": "o"}}
ALIKE = ["A", "ab", "a ", "", "a:b", "1", "01"]  # ids which are one and the same only to a careless comparison
for _i, _k in enumerate(ALIKE): MAKE[_k] = (lambda k: lambda: ops.MovingAverage(k, 2))(_k); PLAIN[_k] = {"type": "MovingAverage", "id": _k, "n": 2}
BROKEN = {"b": {"n": 0}, "in": {"numPorts": 0}, "a": {"numPorts": 1}, "o": {"id": 3}, **{k: {"n": 0} for k in ALIKE}}


class World:
    def __init__(self, c, n):
        self.c, self.hist = c, []; self.progs = [rtbot.Program(entryOperator="in") for _ in range(n)]; self.model = [([], []) for _ in range(n)]

    def full(self, i):
        p, (o, k) = self.progs[i], self.model[i]
        for x in ("in", "a", "b", "o"): p.addOperator(MAKE[x]()); o.append(PLAIN[x])
        for f, fp, t, tp in [("in", "o1", "a", "i1"), ("in", "o2", "a", "i2"), ("a", "o1", "b", "i1"), ("b", "o1", "o", "i1")]: p.addConnection(f, t, fp, tp); k.append({"from": f, "to": t, "fromPort": fp, "toPort": tp})
        self.hist.append(f"program {i + 1}: full")

    def same(self):
        for i, (p, (o, k)) in enumerate(zip(self.progs, self.model)):
            for j in (json.loads(p.toJson()), {"operators": p.operators, "connections": p.connections, "entryOperator": p.entryOperator}):
                self.c.check(list(j["operators"]) == o, "operators", lambda: f"{'; '.join(self.hist)}\n  program {i + 1} has the operators {j['operators']}, expected {o}")
                self.c.check(sorted(map(str, map(dict, j["connections"]))) == sorted(map(str, k)), "connections", lambda: f"{'; '.join(self.hist)}\n  program {i + 1} has the connections {j['connections']}, expected {k}")
                self.c.check(j["entryOperator"] == "in", "entry operator", lambda: f"{'; '.join(self.hist)}\n  program {i + 1} has the entry operator {j['entryOperator']}")
        self.c.state(str(self.model))

    def attempt(self, what, f, ok):
        self.hist.append(what + ("" if ok else " (refused)")); self.c.step(); r, err = None, ""
        try: r = f()
        except Exception as e: err = f"{type(e).__name__}: {e}"
        self.c.check((not err) == ok, "refused" if ok else "not refused", lambda: f"{'; '.join(self.hist)}\n  {'was refused: ' + err if err else 'was not refused'}"); self.c.outcome(str(ok)); return r

    def step(self, which, fps, tps):
        c = self.c; i = c.choose(len(self.progs)) if len(self.progs) > 1 else 0; p, (o, k) = self.progs[i], self.model[i]; tag = f"program {i + 1}: " if len(self.progs) > 1 else ""; kind = c.choose(3); has = [x["id"] for x in o]
        if kind < 2:
            x = c.pick(which); op = MAKE[x]()
            if kind == 1: op.update(BROKEN[x])
            ok = kind == 0 and x not in has
            if ok: o.append(PLAIN[x])
            r = self.attempt(f"{tag}add {'a broken ' if kind else ''}{x}", lambda: p.addOperator(op), ok)
        else:
            f, t, fp, tp = c.pick(which), c.pick(which), c.pick(fps), c.pick(tps); kw = {**({"fromPort": fp} if fp else {}), **({"toPort": tp} if tp else {})}; x = {"from": f, "to": t, "fromPort": fp or "o1", "toPort": tp or "i1"}; ok = f in has and t in has
            if ok and x in k: return  # a second equal connection: the package does not say what it means
            if ok: k.append(x)
            r = self.attempt(f"{tag}connect {f}:{fp}->{t}:{tp}", (lambda: p.addConnection(f, t, fp, tp)) if fp and tp and c.flip() else (lambda: p.addConnection(f, t, **kw)), ok)
        if ok: c.check(r is p, "chain", lambda: f"{'; '.join(self.hist)}\n  the edit does not return its program")

    def edits(self, n, *a):
        for _ in range(self.c.choose(n + 1)): self.step(*a)
        self.c.log(lambda: "; ".join(self.hist)); self.same()


def empty(c, n): w = World(c, 1); w.edits(n, ["in", "a", "b"], ["", "o2"], ["", "i2"] if n < 3 else [""])
def full(c, n): w = World(c, 1); w.full(0); w.edits(n, ["in", "a", "b", "o"], ["", "o1", "o2"], ["", "i1", "i2"])
def alike(c, n): i = c.choose(len(ALIKE)); w = World(c, 1); w.edits(n, ["a", ALIKE[i], ALIKE[(i + 1) % len(ALIKE)]], ["", "o11"] if n < 3 else [""], [""])


def many(c):
    w = World(c, 1); w.full(0); p, (o, k) = w.progs[0], w.model[0]; n = c.pick([5, 13, 29, 62])
    for i in range(n): x = f"b{i}"; MAKE[x] = (lambda x: lambda: ops.MovingAverage(x, 2))(x); PLAIN[x] = {"type": "MovingAverage", "id": x, "n": 2}; BROKEN[x] = {"n": 0}; p.addOperator(MAKE[x]()); o.append(PLAIN[x]); p.addConnection("in", x, f"o{i + 1}", "i1"); k.append({"from": "in", "to": x, "fromPort": f"o{i + 1}", "toPort": "i1"})
    w.hist.append(f"{n} more operators"); w.edits(2, ["in", "b0", f"b{n - 1}", f"b{n // 2}"], ["", f"o{n}"], [""])


def two(c, n): w = World(c, 2); w.full(0) if c.flip() else None; w.edits(n, ["in", "b"], ["", "o2"], [""])


def read(c):
    w = World(c, 1); w.full(0); text = w.progs[0].toJson(); w.progs = [rtbot.parse(text)]; w.hist.append("read back"); w.same(); w.edits(2, ["in", "a"], ["", "o2"], ["", "i2"])
    w.progs = [rtbot.parse(text), rtbot.parse(text)]; w.model = [w.model[0], ([*w.model[0][0]], [*w.model[0][1]])]
    # a text is not a shared program
    a, b = w.progs; c.check(a.operators is not b.operators and a.connections is not b.connections, "shared", "two programs read from one text share their parts")


def validated(c):
    """a program object validates exactly when each of its operators does"""
    w = World(c, 1); w.full(0); p = w.progs[0]; broken = [x for x in ("in", "a", "b", "o") if c.flip()]
    for o in p.operators:
        if o["id"] in broken: o.update(BROKEN[o["id"]])
    v = p.validate(); c.step(); c.state(str(broken)); c.log(lambda: f"broken: {broken}: {v}"); c.check(v["valid"] == (not broken), "validation", lambda: f"broken: {broken}; validation answers {v}")
    try: rtbot.parse(p.toJson()); err = ""
    except Exception as e: err = str(e) or "error"
    c.check(bool(err) == bool(broken), "parse", lambda: f"broken: {broken}; parse answers {err}")
    try: rtbot.Run(p, [[1, 2, 3]]).exec(); err = ""
    except Exception as e: err = str(e) or "error"
    c.check(bool(err) == bool(broken), "run", lambda: f"broken: {broken}; run answers {err}")


m = mc.Main()
m.bounds = "all sequences of 3 additions (valid and broken operators; connections of every pair of 3 operators, with ports named or left out) to an empty program (4 thorough), 2 to a full one (4 operators, 3x3 ports), 3 to two programs in turn; operator ids that differ only in case, blanks, prefix or leading zeros; up to 66 operators; programs read back; validation of every subset of broken operators"
m.assumptions = ["pybind11 is not installed: the module rtbotapi forwards to the native engine through ctypes", "a second equal connection is not covered in Python"]
m.add("empty", lambda c: empty(c, 3)); m.add("empty, ports", lambda c: empty(c, 2)); m.add("full", lambda c: full(c, 2)); m.add("two programs", lambda c: two(c, 3)); m.add("ids that look alike", lambda c: alike(c, 3)); m.add("ids that look alike, ports", lambda c: alike(c, 2)); m.add("many operators", many); m.add("read back", read); m.add("validated", validated); m.add("empty, deep", lambda c: empty(c, 4), True)
m.main()
