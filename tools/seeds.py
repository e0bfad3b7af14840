#!/usr/bin/env python3
"""Development tool: validates the planted bugs in /verif/seeded in scratch copies and runs the checks on them.
  seeds.py validate|check [ids...]     (no check reads /verif/seeded; this is only for building the framework)"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, cwd=None, env=None, t=900):
    return subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
def copy(d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d); sh(f"git -C {os.environ.get("SEEDREPO","/repo")} archive HEAD | tar x -C {d}")
def main():
    mode, ids = sys.argv[1], sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
    for i in ids:
        s = f"{V}/seeded/{i}"; meta = json.load(open(s + "/meta.json")); d = f"/tmp/seedwork/{i}"
        copy(d); demo = f"/tmp/seedwork/demo_{i}"; shutil.rmtree(demo, ignore_errors=True); shutil.copytree(s, demo)
        out = [i, meta["property"]]
        if mode == "validate":
            r0 = sh(f"bash {demo}/demo.sh", cwd=d); out.append("clean=%d" % r0.returncode)
            a = sh(f"git apply --unsafe-paths --directory={d} {s}/patch.diff", cwd="/"); out.append("apply=%d" % a.returncode)
            r1 = sh(f"bash {demo}/demo.sh", cwd=d); out.append("patched=%d" % r1.returncode)
            u = sh(f"bash /tmp/ut/run.sh {d} /tmp/seedwork/ut_{i} 60"); out.append("ut=%s" % ("ok" if "All tests passed" in u.stdout else "FAIL"))
            if r0.returncode or a.returncode or not r1.returncode: out.append("\n" + r0.stdout[-800:] + a.stdout + r1.stdout[-800:])
            if "All tests passed" not in u.stdout: out.append("\n" + u.stdout[-1500:])
        else:
            sh(f"git apply --unsafe-paths --directory={d} {s}/patch.diff", cwd="/")
            p = meta["property"]; r = sh(f"python3 check.py {p}", cwd=V, env=dict(os.environ, RTBOT_REPO=d))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            out.append("exit=%d %s" % (r.returncode, v[:1])); 
            if r.returncode not in (0, 1): out.append(r.stdout[-600:])
        print(*out, flush=True)
        shutil.rmtree(d, ignore_errors=True); shutil.rmtree(demo, ignore_errors=True); shutil.rmtree(f"/tmp/seedwork/ut_{i}", ignore_errors=True)
main()
