import json
import os
import re
import sys
import types
import mc
import rtbot
import rtbot.operators

# The Python example of every operator page, carried out.
D = os.environ["RT_PAGES"]
DOCS = json.load(open(os.environ["RT_DOCS"]))
HERE = [(s["properties"]["type"]["enum"][0], "/markdown/") for s in DOCS]
MADE = {p["name"]: p["schema"] for p in json.load(open(D + "/made/pages.json"))}
OTHERS = [(n, "/made/markdown/") for n in MADE]


def allowed(s, v):
    if "enum" in s and v not in s["enum"]: return False
    t = s.get("type")
    if t == "array": return isinstance(v, list) and s.get("minItems", 0) <= len(v) <= s.get("maxItems", 1 << 30) and all(allowed(s["items"], x) for x in v)
    if t == "object": return isinstance(v, dict) and all(k in v for k in s["required"]) and all(allowed(q, v[k]) for k, q in s["properties"].items() if k in v)
    if t in ("integer", "number"): return type(v) in (int, float) and (t == "number" or v == int(v)) and v >= s.get("minimum", v)
    return isinstance(v, str)


def made_classes():
    """the classes generated for the made-up pages; what they describe is validated by the page's schema"""
    api = types.ModuleType("rtbot.rtbotapi")
    api.validateOperator = lambda t, o: json.dumps({"valid": True} if allowed(MADE[t], json.loads(o)) else {"valid": False, "error": "not allowed: " + o})
    pkg, m = types.ModuleType("rtbot"), types.ModuleType("rtbot.operators"); pkg.rtbotapi = api
    old = {k: sys.modules.get(k) for k in ("rtbot", "rtbot.rtbotapi")}; sys.modules.update({"rtbot": pkg, "rtbot.rtbotapi": api})
    try: exec(compile(open(D + "/made/python/jsonschema.py").read(), "operators.py", "exec"), m.__dict__)
    finally: sys.modules.update(old)
    return m


OPS = {"/markdown/": sys.modules["rtbot.operators"], "/made/markdown/": None}


def page(c, pages):
    name, d = c.pick(pages); f = D + d + name + ".mdx"; c.step(); c.check(os.path.exists(f), "no page", f"{name}: there is no page"); s = open(f).read(); s = s[s.rindex("## Usage"):]; c.log(lambda: s)
    block = lambda l: re.findall("```" + l + "\n(.*?)```", s, re.S); b, j = block("python"), block("json"); c.check(len(b) == 1 and len(j) == 1, "examples", lambda: f"{name}: {len(b)} examples in Python")
    if OPS[d] is None: OPS[d] = made_classes()
    env, err = {}, ""; sys.modules["rtbot.operators"] = OPS[d]; rtbot.operators = OPS[d]
    try: exec(compile(b[0], name, "exec"), env)
    except BaseException as e: err = f"{type(e).__name__}: {e}"
    c.check(not err, "example fails", lambda: f"{name}: the Python example fails: {err}\n{b[0]}")
    got, want = json.loads(env["program"].toJson())["operators"], json.loads(j[0])["operators"]; c.outcome(json.dumps(got)); c.state(name)
    c.check(got == want, "Python", lambda: f"{name}: the Python example makes {got}, the JSON one {want}")


m = mc.Main()
m.bounds = "the Python example of the same pages"
m.assumptions = ["pybind11 is not installed: the module rtbotapi forwards to the native engine through ctypes"]
m.add("pages", lambda c: page(c, HERE)); m.add("other pages", lambda c: page(c, OTHERS))
m.main()
