#!/usr/bin/env python3
"""Builds one property's model-checking harness from /repo's working tree and runs it.

  check.py C01 [--tier quick|thorough] [--replay FILE] [--config SUBSTR] [--asan]

Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=.. replay=..": broken.  Exit 2: no answer.
Objects are cached under /verif/build by the hash of their full preprocessed input, so a cached object is
only ever reused for byte-identical code.
"""
import hashlib, json, os, subprocess, sys, concurrent.futures as cf

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("RTBOT_REPO", "/repo")
B = os.path.join(V, "build")
L = R + "/libs"
INC = [V + "/mc", V + "/harness", V + "/stubs", L + "/core/include", L + "/std/include", L + "/finance/include", L + "/api/include",
       L + "/core/include/rtbot"]
SRC = sorted(L + "/api/src/" + f for f in (os.listdir(L + "/api/src") if os.path.isdir(L + "/api/src") else []) if f.endswith(".cpp"))
BIND = SRC
API = [f for f in SRC if not f.endswith("/bindings.cpp")]
CPP = {}   # id -> sources besides the harness
for i in ["C01", "C02", "C03", "C04", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21"]:
    CPP[i] = []
for i in ["C05", "C06", "C07", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C31"]:
    CPP[i] = API
for i in ["C23", "C25", "C26", "C31", "C32", "C33"]:
    CPP[i] = BIND
MODULES = [L + "/wrappers/python/rtbot.cpp", L + "/api/wasm/emscripten-bindings.cpp"]   # the wrappers' module definitions
CPP["C41"] = BIND + MODULES
OTHER = {"C34": "rust", "C35": "jspy", "C36": "js", "C37": "jspy", "C38": "jspy", "C39": "rust", "C40": "js", "C42": "rust", "C43": "jspy", "C44": "jspy"}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def flags(asan):
    f = ["-std=c++17", "-O1", "-w", "-D_GLIBCXX_ASSERTIONS"]
    if asan:
        f += ["-g1", "-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=undefined", "-DMC_NO_RLIMIT"]
    return f


def obj(src, asan, extra):
    os.makedirs(B, exist_ok=True)
    inc = sum((["-I", d] for d in INC + extra), [])
    pp = subprocess.run(["g++", *flags(asan), *inc, "-E", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pp.returncode:
        return None, pp.stderr.decode(errors="replace")
    h = hashlib.sha256(pp.stdout + repr(flags(asan)).encode()).hexdigest()[:24]
    o = f"{B}/{os.path.basename(src)}.{h}.o"
    if not os.path.exists(o):
        t = f"{o}.{os.getpid()}"
        r = sh(["g++", *flags(asan), *inc, "-c", src, "-o", t])
        if r.returncode:
            return None, r.stdout
        os.replace(t, o)
    return o, ""


def build_cpp(pid, asan=False):
    srcs = [f"{V}/harness/{pid}.cpp"] + CPP[pid]
    extra = []
    if any(f.endswith("/bindings.cpp") for f in CPP[pid]):
        extra = [gen_schema()]
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda s: obj(s, asan, extra), srcs))
    bad = [m for o, m in res if o is None]
    if bad:
        print("\n".join(bad)[-6000:], file=sys.stderr)
        print(f"{pid}: the code does not compile with the harness", file=sys.stderr)
        sys.exit(2)
    objs = [o for o, _ in res]
    exe = f"{B}/{pid}.{hashlib.sha256(' '.join(objs).encode()).hexdigest()[:16]}"
    if not os.path.exists(exe):
        t = f"{exe}.{os.getpid()}"
        r = sh(["g++", *flags(asan), *objs, "-o", t, "-lpthread"])
        if r.returncode:
            print(r.stdout[-4000:], file=sys.stderr)
            sys.exit(2)
        os.replace(t, exe)
    return exe


def gen_schema():
    """The JSON schema header the project's own build generates from the operators' documentation."""
    r = sh([sys.executable, f"{V}/tools/gen_schema.py", L, B])
    if r.returncode:
        print(r.stdout, file=sys.stderr)
        sys.exit(2)
    return r.stdout.strip()


def main():
    a = sys.argv[1:]
    pid = a.pop(0)
    asan = "--asan" in a
    if asan:
        a.remove("--asan")
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    os.makedirs(V + "/evidence", exist_ok=True)
    os.makedirs(V + "/replays", exist_ok=True)
    common = ["--evidence", f"{V}/evidence/{pid}.json", "--replay-out", f"{V}/replays/{pid}.txt", "--known", f"{V}/KNOWN_FINDINGS.txt"]
    if pid in CPP:
        exe = build_cpp(pid, asan)
        env = dict(os.environ, VERIF_TIER=tier, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1", UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1")
        sys.exit(subprocess.run([exe, *common, *a], env=env, cwd=V).returncode)
    kind = OTHER[pid]
    sys.path.insert(0, V + "/tools")
    mod = __import__("run_" + kind)
    sys.exit(mod.main(pid, tier, common, a))


if __name__ == "__main__":
    main()
