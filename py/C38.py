import itertools
import json
import os
import mc
import rtbot
from rtbot import operators as ops

# Every documented operator: the Python class generated for it; and the schema every target of the generator publishes.
DOCS = json.load(open(os.environ["RT_DOCS"])); GEN = os.environ["RT_GENERATED"].split(":")
type_of = lambda s: s["properties"]["type"]["enum"][0]
params = lambda s: [p for p in s["properties"] if p != "type"]
NONE = object()


def good(p):
    if "enum" in p: return p["enum"]
    if p["type"] == "integer": return sorted({p.get("minimum", -3), p.get("minimum", 0) + 1, 7})
    if p["type"] == "number": return [0.5, -2, 0]
    if p["type"] == "string": return ["a", "b c"]
    lo = p.get("minItems", 0); hi = p.get("maxItems", lo + 2); t = p["items"]["type"]
    return [[[i, i * i + 0.5] if t == "array" else i * i - 0.5 for i in range(n)] for n in sorted({lo, hi, 4}) if lo <= n <= hi]


def bad(p):
    r = [None, True, {}]
    if "enum" in p: return r + ["other", 3]
    if p["type"] == "string": return r + [3, []]
    if p["type"] in ("integer", "number"): return r + ["3", []] + ([1.5] if p["type"] == "integer" else []) + ([p["minimum"] - 1, -1000] if "minimum" in p else [])
    g = good(p)[0]; return r + [3, "x"] + ([[], g[1:]] if p.get("minItems") else []) + [g + ["x"], g + [None]] + ([g + [1], g + [[1]], g + [[1, 2, 3]]] if p["items"]["type"] == "array" else [g + [[1]]])


def values(c, s, faults):
    v, odd = {}, []
    for k in params(s):
        p = s["properties"][k]; req = k in s["required"]; g = good(p); b = bad(p) if len(odd) < faults else []; omit = not req or (len(odd) < faults)
        x = c.choose(len(g) + len(b) + (1 if omit else 0))
        if x < len(g): v[k] = g[x]
        elif x < len(g) + len(b): v[k] = b[x - len(g)]; odd.append(k)
        elif req: odd.append(k)
    return v, odd


def classes(c, faults):
    s = c.pick(DOCS); t = type_of(s); cls = getattr(ops, t, None); v, odd = values(c, s, faults); how = c.choose(2); names = params(s)
    # by position as far as nothing is left out, or by name
    n = 0
    while how == 0 and n < len(names) and names[n] in v: n += 1
    args, kw = [v[k] for k in names[:n]], {k: v[k] for k in names[n:] if k in v}; text = f"{t}({', '.join([repr(a) for a in args] + [f'{k}={x!r}' for k, x in kw.items()])})"
    c.log(lambda: text); c.check(cls is not None, "no class", f"{t} is documented and has no class"); o, err = None, ""; c.step()
    try: o = cls(*args, **kw)
    except Exception as e: err = f"{type(e).__name__}: {e}"
    c.check(bool(err) == bool(odd), "not refused" if odd else "refused", lambda: f"{text} {'is refused: ' + err if err else 'is accepted: ' + json.dumps(o)}"); c.outcome(err and "1" or json.dumps(o)); c.state(text)
    if odd: return
    want = {"type": t, **{k: v[k] if k in v else s["properties"][k]["default"] for k in names if k in v or "default" in s["properties"][k]}}
    c.check(json.loads(json.dumps(o)) == want, "definition", lambda: f"{text} describes {json.dumps(o)}, expected {json.dumps(want)}")
    p = rtbot.Program(entryOperator=o["id"]); p.addOperator(o); c.check(json.loads(p.toJson())["operators"] == [want], "definition in program", lambda: f"{text} in a program: {p.toJson()}"); c.check(p.validate()["valid"], "program refused", lambda: f"{text} in a program: {p.validate()}")


def every(c):
    have = sorted(n for n, x in vars(ops).items() if isinstance(x, type) and issubclass(x, ops.Operator) and x is not ops.Operator); want = sorted(map(type_of, DOCS)); c.step(); c.state(str(have)); c.log(lambda: str(have)); c.check(have == want, "classes", f"classes {have}, documented {want}")


def published(c):
    f = c.pick(GEN); got = json.load(open(f))["properties"]["operators"]["items"]["oneOf"]; i = c.choose(len(DOCS) + 1); c.step(); c.state(f"{os.path.dirname(f)}{i}"); c.log(lambda: f"{f[-60:]} {i}"); t = f.split("/")[-2]
    if i == len(DOCS): c.check([type_of(s) for s in got] == [type_of(s) for s in DOCS] or sorted(map(type_of, got)) == sorted(map(type_of, DOCS)), "operators", lambda: f"target {t}: {[type_of(s) for s in got]}"); return
    g = [s for s in got if type_of(s) == type_of(DOCS[i])]; norm = lambda s: {**s, "required": sorted(s["required"])}
    c.check(len(g) == 1 and norm(g[0]) == norm(DOCS[i]), "schema", lambda: f"target {t} publishes {g}\n  documented {DOCS[i]}")


m = mc.Main()
m.bounds = "every documented operator and all combinations of valid values (optional ones also omitted) with at most one missing or refused value (two thorough), by position and by name; the schema published by each of the 5 targets of the generator"
m.assumptions = ["pybind11 is not installed: the module rtbotapi forwards to the native engine through ctypes", "finite numbers only"]
m.add("classes", lambda c: classes(c, 1)); m.add("one class per operator", every); m.add("published schemas", published); m.add("classes, two faults", lambda c: classes(c, 2), True)
m.main()
