"""JavaScript client: the real sources of the client and the generator, bundled with stand-ins for the npm packages that are not installed."""
import hashlib, os, subprocess, sys
import scripted

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("RTBOT_REPO", "/repo")


GENERATOR = None  # the check which judges the generator, while it runs


def unusable(what, text):
    """what the generator makes cannot be used at all"""
    print(text[-3000:], file=sys.stderr); p = f"{V}/replays/{GENERATOR}.txt"; os.makedirs(V + "/replays", exist_ok=True)
    open(p, "w").write(f"property {GENERATOR}\nconfig the generator\nchoices\n\n{what}\n{text[-3000:]}\n")
    print(f"{GENERATOR}\n  {what}\nVIOLATION property={GENERATOR} replay={p}"); sys.exit(1)


def sh(cmd, what, generated=False):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        if GENERATOR and (generated or r.returncode == 3):
            unusable(what if generated else r.stdout.strip().splitlines()[-1], r.stdout)
        print(r.stdout[-5000:], file=sys.stderr); print(what, file=sys.stderr); sys.exit(2)


def tree(*paths):
    h = hashlib.sha256()
    for p in paths:
        fs = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, ff in os.walk(p) for f in ff if f.endswith((".ts", ".hbs", ".md", ".mjs", ".py", ".cpp", ".h", ".hpp")))
        for f in fs:
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()[:16]


def engine(addon):
    """the engine as a shared library, for node (addon) or ctypes"""
    sys.path.insert(0, V)
    import check
    extra = [check.gen_schema()]
    import concurrent.futures as cf
    flags0 = check.flags
    wrapper = check.MODULES[1 if addon else 0]
    check.flags = lambda asan: [*flags0(asan), "-fPIC", *([f"-DRT_TABLE={'wasm' if addon else 'python'}"] if wrapper else [])]
    # the wrapper's own module definition, over stand-ins; where those do not suffice (C41 tells), the engine's functions themselves
    if check.obj(wrapper, False, extra)[0] is None:
        wrapper = None
    srcs = [f"{V}/js/engine.cpp", *check.BIND, *([wrapper] if wrapper else [])]
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda s: check.obj(s, False, extra), srcs))
        if addon:
            res.append(check.obj(f"{V}/js/addon.cpp", False, ["/usr/include/node"]))
    check.flags = flags0
    bad = [m for o, m in res if o is None]
    if bad:
        print("\n".join(bad)[-6000:], file=sys.stderr); print("the engine does not compile", file=sys.stderr); sys.exit(2)
    objs = [o for o, _ in res]
    lib = f"{check.B}/engine.{hashlib.sha256(' '.join(objs).encode()).hexdigest()[:16]}.{'node' if addon else 'so'}"
    if not os.path.exists(lib):
        t = f"{lib}.{os.getpid()}"
        sh(["g++", "-shared", "-fPIC", *objs, "-o", t], "the engine does not link"); os.replace(t, lib)
    return lib


def bundle(pid):
    d = f"{V}/build/js-{pid}.{tree(V + '/js', R + '/libs/wrappers/javascript/src', R + '/tools/generator', R + '/libs/core/include', R + '/libs/std/include', *([R + '/apps/cli/src'] if pid == 'C40' else []))}"
    if not os.path.exists(d + "/done"):
        sh(["node", f"{V}/js/build.mjs", R, d, *([f"{V}/js/{pid}.ts"] if os.path.exists(f"{V}/js/{pid}.ts") else [])], "the client does not bundle"); open(d + "/done", "w").close()
    return d


def group(pid):
    e = engine(True)
    return ("JavaScript: " if os.path.exists(f"{V}/py/{pid}.py") else "", ["node", "--stack-size=2000", f"{bundle(pid)}/{pid}.js"], {"RT_ENGINE": e})


def main(pid, tier, common, args):
    return scripted.run(pid, tier, [group(pid)], common, args)
