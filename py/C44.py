import json
import mc
import rtbot
from rtbot import operators as ops
import re

# The diagram of a program after every step of putting it together, compared with the list of what was connected.
OPS = [
    (lambda i: ops.Input(i, 2), "Input(2)"), (lambda i: ops.Input(i), "Input(1)"), (lambda i: ops.Count(i), "Count"), (lambda i: ops.Minus(i), "Minus"), (lambda i: ops.MovingAverage(i, 12), "MovingAverage(12)"),
    (lambda i: ops.TimeShift(i, 3, -2), "TimeShift(3,-2)"), (lambda i: ops.FiniteImpulseResponse(i, [1, -0.5]), "FiniteImpulseResponse([1, -0.5])"), (lambda i: ops.Scale(i, 0), "Scale(0)"), (lambda i: ops.Variable(i, 0.25), "Variable(0.25)"), (lambda i: ops.Constant(i, -1), "Constant(-1)"),
    (lambda i: ops.Join(i, 3), "Join(3)"),
]
IDS = ["in", "a", "ab", "a1", "1", "A"]
EDGE = re.compile(r'\s*(\S+?)\("(.*?)"\)\s*-->\s*\|(.*?):(.*?)\|\s*(\S+?)\("(.*?)"\)\s*;?\s*$')
PORTS = [("o1", "i1"), ("o2", "i1"), ("o1", "i2"), ("o11", "c1")]


def parse(text):
    """[(from, label, from port, to port, to, label)] of a flow chart, None when it is not one"""
    head, sep, rest = text.partition(";")
    if not head.strip().startswith(("flowchart", "graph")) or not sep: return None
    r = []
    for l in rest.split("\n"):
        if not l.strip(): continue
        m = EDGE.match(l)
        if not m: return None
        r.append(m.groups())
    return r


def flat(edges):
    return sorted(edges, key=str)


def look(c, p, hist, want):
    before = p.toJson(); c.step(); text = p.toMermaidJs(); got = parse(text); c.log(lambda: "; ".join(hist) + "\n" + text); c.outcome(text); c.state(text)
    squeeze = lambda e: e and [tuple(x.replace(" ", "") for x in k) for k in e]
    c.check(got is not None and flat(squeeze(got)) == flat(squeeze(want)), "diagram", lambda: f"{'; '.join(hist)}\n  the diagram is\n{text}\n  expected the edges {want}")
    c.check(p.toJson() == before, "drawing changes the program", lambda: f"{'; '.join(hist)}\n  drawing the program changes it from {before} to {p.toJson()}")


def built(nops, ncon, ports, kinds, how):
    def run(c):
        p, hist, label, want, made, cons = rtbot.Program(entryOperator="in"), [], {}, [], [], []; style = c.pick(how)
        for k in range(nops):
            make, l = OPS[c.pick(kinds)]; i = IDS[k]; label[i] = l; made.append(make(i)); hist.append(f"{i} is a {l}")
        if style == "added":
            for o in made: p.addOperator(o)
            look(c, p, hist, want)
        for k in range(ncon):
            f, t = IDS[c.choose(nops)], IDS[c.choose(nops)]; fp, tp = c.pick(ports); hist.append(f"{f}:{fp} to {t}:{tp}"); cons.append({"from": f, "to": t, "fromPort": fp, "toPort": tp}); want.append((f, label[f], fp, tp, t, label[t]))
            if style == "added": p.addConnection(f, t, fp, tp); look(c, p, hist, want)
        if style == "added": return
        if style == "given": q = rtbot.Program(entryOperator="in", operators=made, connections=cons)
        elif style == "given last first": q = rtbot.Program(entryOperator="in", operators=made[::-1], connections=cons)
        else: q = rtbot.Program(entryOperator="in", operators=json.loads(json.dumps(made)), connections=json.loads(json.dumps(cons)))
        hist.append(style); look(c, q, hist, want); look(c, q, hist + ["again"], want); look(c, p, hist + ["an empty program"], [])
    return run


def wide(c):
    """many operators in a row, one edge more"""
    n = c.pick([12, 25]); ids = [f"n{k}" for k in range(n)]; p = rtbot.Program(entryOperator="n0"); want, hist = [], [f"{n} operators in a row"]; label = {}
    for k, i in enumerate(ids): make, label[i] = OPS[k % len(OPS)]; p.addOperator(make(i))
    for f, t in zip(ids, ids[1:]): p.addConnection(f, t); want.append((f, label[f], "o1", "i1", t, label[t]))
    f, t = ids[c.choose(n)], ids[c.choose(n)]; hist.append(f"{f} to {t}"); p.addConnection(f, t, "o2", "i12"); want.append((f, label[f], "o2", "i12", t, label[t])); look(c, p, hist, want)


m = mc.Main()
m.bounds = "every program of 2 operators of 11 kinds (without, with one, two and list parameters, zero and negative values) and of up to 3 connections between 2 or 3 operators over 4 pairs of ports (self connections and repeated ones included), added one after another (drawn after every step), given at once in either order, or read from JSON; 12 and 25 operators in a row with any further connection"
m.assumptions = ["operator ids are letters and digits; text values are not quoted"]
every = list(range(len(OPS)))
m.add("two operators", built(2, 1, PORTS, every, ["added", "given", "given last first", "read"]))
m.add("two operators, connected twice", built(2, 2, PORTS, [1, 5], ["added", "given", "read"]))
m.add("three operators", built(3, 2, PORTS, [0, 2, 6], ["added", "given last first"]))
m.add("six operators", built(6, 1, PORTS[:2], [4, 3], ["added"]))
m.add("three operators, three connections", built(3, 3, PORTS[:3], [4], ["added", "read"]))
m.add("wide", wide)
m.add("three connections, deep", built(3, 3, PORTS, [0, 4], ["added", "given"]), True)
m.main()
