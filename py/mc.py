"""The explorer of mc/mc.h for code that runs in Python: a driver is a function of a Ctx; every sequence of choices is executed."""
import hashlib, json, os, sys, traceback


class Fail(Exception):
    def __init__(self, sig, msg):
        super().__init__(msg); self.sig = sig; self.msg = msg


class Skip(Exception):
    pass


def h(s):
    return int.from_bytes(hashlib.blake2b(s.encode("utf-8", "surrogatepass"), digest_size=6).digest(), "big")


class Ctx:
    def __init__(self, choices, shard=None, cfg="", verbose=False):
        self.choices, self.shard, self.cfg, self.verbose = list(choices), shard, cfg, verbose
        self.arity, self.trace, self.steps, self.out, self.decided, self.prod = [], [], 0, 7, False, 1

    def choose(self, n):
        i = len(self.arity)
        assert n > 0
        if i < len(self.choices):
            if self.choices[i] >= n: raise RuntimeError("replay diverged")
        else: self.choices.append(0)
        self.arity.append(n)
        if self.shard and not self.decided:
            self.prod *= n
            if self.prod >= 128: self.decide()
        return self.choices[i]

    def decide(self):
        self.decided = True
        if self.shard and h(f"{self.cfg} {self.choices[:len(self.arity)]}") % self.shard[1] != self.shard[0]: raise Skip()

    def settle(self):
        if not self.decided: self.decide()

    def pick(self, a): return a[self.choose(len(a))]
    def flip(self): return self.choose(2) == 1
    def step(self, n=1): self.steps += n
    def state(self, s):
        if self.shard: self.shard[2].add(h(self.cfg + "\0" + s))
    def outcome(self, s): self.out = h(f"{self.out} {s}")
    def log(self, f):
        if self.verbose: self.trace.append(f())
    def fail(self, sig, msg): raise Fail(sig, msg)
    def check(self, ok, sig, msg):
        if not ok: raise Fail(sig, msg() if callable(msg) else msg)


class Main:
    def __init__(self):
        self.bounds, self.assumptions, self.configs = "", [], []

    def add(self, name, run, deep=False):
        assert name not in [c[0] for c in self.configs], name
        self.configs.append((name, run, deep))

    def main(self):
        a = sys.argv[1:]
        opt = lambda k, n=1: a[a.index(k) + n] if k in a else None
        real = sys.stdout; sys.stdout = open(os.devnull, "w")
        if opt("--run"):
            o = json.loads(opt("--run")); c = Ctx(o["choices"], None, o["config"], True); r = {"status": "ok", "sig": "", "msg": ""}
            try: next(x for x in self.configs if x[0] == o["config"])[1](c)
            except Fail as e: r = {"status": "fail", "sig": e.sig, "msg": e.msg}
            except Exception: r = {"status": "fail", "sig": "escaped-exception", "msg": "unexpected exception: " + traceback.format_exc()}
            print("@@" + json.dumps({**r, "trace": "\n".join(c.trace)}), file=real); real.flush(); return
        me, of, out, only = int(opt("--worker")), int(opt("--worker", 2)), opt("--out"), opt("--config") or ""
        deep = os.environ.get("VERIF_TIER") == "thorough"; ignore = json.loads(os.environ.get("MC_KNOWN", "[]"))
        states, res = set(), {"bounds": self.bounds, "assumptions": self.assumptions, "execs": {}, "steps": 0, "samples": [], "known": [], "fail": None}
        outcomes = set(); now = open(out + ".now", "w"); lst = [c for c in self.configs if (deep or not c[2]) and only in c[0]]; width = 0
        for ci, (name, run, _) in enumerate(lst):
            res["execs"][name] = 0; prefix = []; mine = 0
            while prefix is not None and not res["fail"]:
                c = Ctx(prefix, (me, of, states), name); s = json.dumps({"config": name, "choices": prefix}); width = max(width, len(s)); now.seek(0); now.write(s.ljust(width)); now.flush()
                done = False; f = None
                try: run(c); c.settle(); done = True
                except Skip: pass
                except Fail as e: f = e
                except Exception: f = Fail("escaped-exception", traceback.format_exc())
                if f:
                    if f.sig in ignore: res["known"].append(f.sig); done = True
                    else: res["fail"] = {"config": name, "choices": c.choices, "sig": f.sig, "msg": f.msg}
                if done:
                    res["execs"][name] += 1; res["steps"] += c.steps; outcomes.add(h(f"{name} {c.out}")); mine += 1
                    if me == 0 and mine == 3 and ci % -(-len(lst) // 3) == 0: res["samples"].append({"config": name, "choices": list(c.choices)})
                n = len(c.arity); prefix = None
                while n > 0:
                    if c.choices[n - 1] + 1 < c.arity[n - 1]: prefix = c.choices[:n]; prefix[n - 1] += 1; break
                    n -= 1
        json.dump({**res, "states": list(states), "outcomes": list(outcomes)}, open(out + ".t", "w")); os.replace(out + ".t", out)
