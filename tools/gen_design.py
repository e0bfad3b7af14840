#!/usr/bin/env python3
"""Rewrites the parts of DESIGN.md that follow from other files: the list of properties (titles from properties.jsonl, bounds,
assumptions and times from the last evidence, oracles from here) and the table of planted bugs (from seeded/*/meta.json)."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = open(V + "/DESIGN.md").read()
O = {
"C01": "last forwarded time per port",
"C02": "set intersection of the per-port times, tuple due at the step that completes it",
"C03": "the C02 model with the operator's function on top; rounding judged relative to the size of the operands (`ref::unit`)",
"C04": "differential: every interleaving against a canonical one, on the real operator",
"C05": "differential: every listing order against the first",
"C06": "differential: restored operator against the original (the explorer keeps both), bytes consumed = bytes collected; also between receiving and processing a message, through the operator's own collect/restore",
"C07": "differential: resumed program against the uninterrupted one, at every crash point, repeated crashes",
"C08": "mean and sample deviation recomputed from the last n values",
"C09": "formula on the kept history", "C10": "window recomputed from history", "C11": "recurrences from history", "C12": "Wilder's recurrences",
"C13": "pure function", "C14": "pure predicate", "C15": "128-bit arithmetic", "C16": "interpolant computed from sorted points, tangent = slope between neighbours",
"C17": "grid walk over history", "C18": "grid times due at each step", "C19": "interpolation formula per segment; straight lines are reproduced; independence of origin",
"C20": "controls looked up at the data message's time", "C21": "step function of the definitions",
"C22": "an independent dataflow interpreter (`harness/prog.h`, RefGraph) built on the reference operators; every graph of the stated size is enumerated (`grow`)",
"C23": "differential: every way of cutting a message sequence into batches, and the three feeding interfaces", "C24": "projection of the debug run of a twin",
"C25": "registry model with isolated Program objects", "C26": "an independent judgement of the mutated definition (`harness/mutate.h`: malformed, fine, or not spoken of); after a refusal the id must be free and usable, and nothing may crash, hang or leak",
"C27": "differential: original against re-read operator, JSON fixpoint", "C28": "differential: nested against inlined program, both real", "C29": "differential: composite against direct connections",
"C30": "invariant on every emitted message", "C31": "differential: history with rejected calls against the same history without them", "C32": "an independent evaluation of the operators' documented parameter tables (`harness/opdoc.h` reads the operator pages at run time)",
"C33": "exact bound on kept messages per operator; checkpoint size after each message, live heap bytes after each repetition of the pattern (also through every function of the interface)",
"C34": "sequential map; an explored concurrent run must be explained by some order of its calls (linearizability), and must not deadlock. The registry source is compiled against `rust/shim.rs`, whose Mutex and engine calls are the scheduling points of `rust/explore.rs`",
"C35": "list model of operators and connections; the edited program must also be what the engine receives", "C36": "the same calls one after another (in the order in which they were made)",
"C37": "direct use of the engine, row by row", "C38": "the operator pages: parameter names, types and defaults; the generated class, the generated schema and the engine must agree with them",
"C39": "model of the commands over a model of Redis (samples, publications, pipelines, failures of any single Redis call)", "C40": "table computed from the recorded results, for the iteration and selection the keys lead to",
"C44": "the list of connections made so far, which the drawn text, read back, must equal",
"C43": "the page's own schema: the parameter list is computed from it, and what the four examples make is compared with each other and judged by it, the generated classes and the engine",
"C42": "the samples the feed gave and the messages Redis published, per client from its connection on. The real `main.rs` is the program: `#[tokio::main]` is a stand-in that hands the server to `rust/C42.rs`, whose explorer chooses which task runs (`rust/server/sim.rs`) and what happens outside",
"C41": "differential: a program of its own driven by the same calls of the engine's functions",
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = []
for p in props:
    i = p["id"]; f = V + f"/evidence/{i}.json"; e = json.load(open(f)) if os.path.exists(f) else None
    s = f"* **{i} {p['title']}.** Oracle: {O[i]}."
    if e:
        c = e["coverage"]; s += f" Enumerated: {c['bounds']}. Quick: {c['configs']} configurations, {c['traces_validated_against_impl']:,} executions, {c['transitions']:,} steps, {e['wall_s']:.0f} s."
        if e["assumptions"]: s += "\n  Assumes: " + "; ".join(e["assumptions"]) + "."
    out.append(s)
D = re.sub(r"(## Properties\n\n.*?\n\n).*?(?=\n## )", lambda m: m.group(1) + "\n".join(out) + "\n", D, count=1, flags=re.S)
rows = ["| planted bug | property | needs | effect |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json"), key=lambda f: (json.load(open(f))["property"], f)):
    m = json.load(open(f)); rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
D = re.sub(r"(## Planted bugs\n.*?\n\n)\| planted bug.*?(?=\n\n|\Z)", lambda m: m.group(1) + "\n".join(rows), D, count=1, flags=re.S)
open(V + "/DESIGN.md", "w").write(D)
print(len(out), "properties,", len(rows) - 2, "planted bugs")
