"""Parent of the explorers written in JavaScript and Python (js/mc.ts, py/mc.py): starts one worker process per core, each of which
enumerates its share of every configuration's choice tree, merges what they report, confirms a violation in fresh processes,
and writes evidence and replay files in the same form as mc/mc.h."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time


def parse(common, args):
    o = {"config": "", "replay": "", "workers": 8, "tier": "quick"}
    a = list(common) + list(args)
    while a:
        k = a.pop(0)
        if not k.startswith("--") or not a:
            print("unknown option " + k, file=sys.stderr); sys.exit(2)
        o[k[2:]] = a.pop(0)
    return o


def known(pid, path):
    r = []
    for l in open(path) if os.path.exists(path) else []:
        if l.startswith("finding: ") and f"property={pid} " in l and "key=" in l and " -- " in l:
            r.append((l[l.index("key=") + 4:l.index(" -- ")], l[l.index(" -- ") + 4:].strip()))
    return r


def run(pid, tier, groups, common, args):
    """groups: [(label, command, environment)]; every group is a program that follows the worker protocol"""
    o = parse(common, args); o["tier"] = tier; t0 = time.time(); kn = known(pid, o["known"]); d = tempfile.mkdtemp(prefix="mc-" + pid)
    env = lambda e: dict(os.environ, VERIF_TIER=tier, MC_KNOWN=json.dumps([k for k, _ in kn]), **e)

    def once(cmd, e, cfg, choices, limit):
        try:
            r = subprocess.run([*cmd, "--run", json.dumps({"config": cfg, "choices": choices})], env=env(e), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit, text=True)
        except subprocess.TimeoutExpired:
            return {"status": "fail", "sig": "hang", "msg": f"the step does not terminate (limit {limit} s)", "trace": ""}
        for l in reversed(r.stdout.splitlines()):
            if l.startswith("@@"):
                return json.loads(l[2:])
        if r.returncode < 0:
            return {"status": "fail", "sig": "crash", "msg": f"the process was ended by signal {-r.returncode}", "trace": ""}
        print(r.stdout[-2000:] + r.stderr[-4000:], file=sys.stderr)
        return {"status": "error", "sig": "", "msg": "no answer", "trace": ""}

    def history(cmd, e, i, w, f, limit):
        """everything a worker ran, in a fresh process: for violations that need what ran before them"""
        out = f"{d}/history"
        try: subprocess.run([*cmd, "--worker", str(i), str(w), "--out", out, "--config", o["config"]], env=env(e), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=limit)
        except subprocess.TimeoutExpired: return None
        g = json.load(open(out)).get("fail") if os.path.exists(out) else None
        return g if g and g["config"] == f["config"] and g["choices"] == f["choices"] else None

    try:
        if o["replay"]:
            cfg = ""; ch = []; hist = None
            for l in open(o["replay"]):
                if l.startswith("config "): cfg = l[7:].rstrip("\n")
                elif l.startswith("choices"): ch = [int(x) for x in l.split()[1:]]
                elif l.startswith("history "): hist = l.split()[1:]
                elif l == "\n": break
            for label, cmd, e in groups:
                if cfg.startswith(label) and hist:
                    tier = hist[2]; g = history(cmd, e, hist[0], hist[1], {"config": cfg[len(label):], "choices": ch}, 600); print(f"config {cfg}\n{'held' if not g else g['sig'] + ': ' + g['msg']}")
                    if g: print(f"VIOLATION property={pid} replay={o['replay']}")
                    return 1 if g else 0
                if cfg.startswith(label):
                    r = once(cmd, e, cfg[len(label):], ch, 120); print(f"config {cfg}\n{r['trace']}\n{'held' if r['status'] == 'ok' else r['sig']}: {r['msg']}")
                    if r["status"] == "fail": print(f"VIOLATION property={pid} replay={o['replay']}")
                    return {"ok": 0, "fail": 1}.get(r["status"], 2)
            return 2
        W = int(o["workers"]); cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "distinct_outcomes": 0, "configs": 0, "exhaustive": True, "bounds": "", "executions_per_config": {}, "samples": []}
        bounds, assume, seen, fails = [], [], set(), []
        for label, cmd, e in groups:
            ps = []
            for i in range(W):
                out = f"{d}/{len(bounds)}.{i}"
                # (process, output, last sign of life, what it runs, its number)
                ps.append([subprocess.Popen([*cmd, "--worker", str(i), str(W), "--out", out, "--config", o["config"]], env=env(e), stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w")), out, time.time(), "", i])
            res = []; states, outcomes = set(), set(); first = len(bounds)
            while ps:
                time.sleep(0.02)
                for p in list(ps):
                    rc = p[0].poll(); cur = ""
                    try: cur = open(p[1] + ".now").read()
                    except OSError: pass
                    if rc is None:
                        if cur != p[3]: p[2], p[3] = time.time(), cur
                        elif time.time() - p[2] > 40:
                            p[0].kill(); p[0].wait(); ps.remove(p)
                            if not cur: print("internal error: a worker does not start", file=sys.stderr); return 2
                            fails.append((label, cmd, e, {**json.loads(cur), "sig": "", "worker": p[4]}))
                        continue
                    ps.remove(p)
                    if os.path.exists(p[1]):
                        res.append({**json.load(open(p[1])), "worker": p[4]})
                    elif cur and rc != 3:
                        fails.append((label, cmd, e, {**json.loads(cur), "sig": "", "worker": p[4]}))
                    else:
                        print(open(p[1] + ".err").read()[-4000:], file=sys.stderr); print("internal error: worker failed", file=sys.stderr); return 2
            for r in res:
                if r.get("error"): print("internal error: " + r["error"], file=sys.stderr); return 2
                cov["transitions"] += r["steps"]; states.update(r["states"]); outcomes.update(r["outcomes"]); seen.update(r["known"])
                for k, n in r["execs"].items():
                    cov["executions_per_config"][label + k] = cov["executions_per_config"].get(label + k, 0) + n; cov["traces_validated_against_impl"] += n
                if r.get("fail"): fails.append((label, cmd, e, {**r["fail"], "worker": r["worker"]}))
            cov["states"] += len(states); cov["distinct_outcomes"] += len(outcomes)
            if res:
                bounds.append(label + res[0]["bounds"]); assume += [a for a in res[0]["assumptions"] if a not in assume]
                for s in (x for r in res for x in r["samples"]):
                    if len(cov["samples"]) < 4 * (first + 1):
                        t = once(cmd, e, s["config"], s["choices"], 60)["trace"]; cov["samples"].append(f"{label}{s['config']}: {t[:1500]}")
            if fails: break
        cov["configs"] = len(cov["executions_per_config"]); cov["bounds"] = "; ".join(bounds)

        def evidence(v):
            cov["exhaustive"] = not v
            json.dump({"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "coverage": cov, "assumptions": assume, "wall_s": round(time.time() - t0, 2), "violations": v}, open(o["evidence"], "w"))
        if fails:
            label, cmd, e, f = min(fails, key=lambda x: (len(x[3]["choices"]), x[3]["choices"]))
            a, b = once(cmd, e, f["config"], f["choices"], 60), once(cmd, e, f["config"], f["choices"], 120)
            if a["status"] != "fail" or a["sig"] != b["sig"] or (f["sig"] and f["sig"] != a["sig"]):
                g = history(cmd, e, f["worker"], W, f, 300)
                if g: a = {"sig": g["sig"], "msg": g["msg"] + "\n  (only after the executions that came before in the same process: the code keeps something between them)", "trace": "", "history": f"history {f['worker']} {W} {tier}\n"}
            if "history" not in a and (a["status"] != "fail" or a["sig"] != b["sig"] or (f["sig"] and f["sig"] != a["sig"])):
                print(f"internal error: violation of config '{f['config']}' did not replay ({f['sig']} / {a['status']} {a['sig']} {a['msg']})", file=sys.stderr); return 2
            open(o["replay-out"], "w").write(f"property {pid}\nconfig {label}{f['config']}\nchoices {' '.join(map(str, f['choices']))}\n{a.get('history', '')}signature {a['sig']}\nmessage {a['msg']}\n\n--- trace (steps executed on the real code) ---\n{a['trace']}\n")
            print(f"{pid}\n  config: {label}{f['config']}\n  {a['msg']}\nVIOLATION property={pid} replay={o['replay-out']}"); evidence(1)
            return 1
        if not cov["traces_validated_against_impl"]:
            print("internal error: nothing explored", file=sys.stderr); return 2
        evidence(0)
        for k, text in kn:
            if k in seen: print(f"KNOWN-FINDING: property={pid} {text}")
        print(f"{pid} held: configs={cov['configs']} executions={cov['traces_validated_against_impl']} steps={cov['transitions']} states={cov['states']} distinct_outcomes={cov['distinct_outcomes']} wall={time.time() - t0:.1f}s")
        return 0
    finally:
        shutil.rmtree(d, ignore_errors=True)
