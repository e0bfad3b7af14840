import { Ctx, Main } from "./mc";
import { Program, Input, MovingAverage, Join, Output, Count } from "@client";
import { call } from "./engine";
// Every sequence of edits on program objects, compared with plain lists.
type C = { from: string; to: string; fromPort: string; toPort: string };
const protos: Record<string, any> = { in: new Input("in", 2), a: new Join("a", 2), b: new MovingAverage("b", 2), o: new Count("o") };
const ids = Object.keys(protos), alike = ["A", "ab", "a ", "", "a:b", "1", "01"]; // ids which are one and the same only to a careless comparison
for (const [i, k] of alike.entries()) protos[k] = i % 2 ? new MovingAverage(k, 2) : new Join(k, 2);
const make: Record<string, () => any> = Object.fromEntries([...ids, ...alike].map((k) => [k, () => Object.assign(Object.create(Object.getPrototypeOf(protos[k])), protos[k])])), text: Record<string, string> = Object.fromEntries([...ids, ...alike].map((k) => [k, canon(protos[k])])), ports = ["o1", "o2"], inputs = ["i1", "i2"];
function canon(o: any) { return JSON.stringify(Object.entries(JSON.parse(JSON.stringify(o))).sort()); }
class World {
  progs: any[] = []; model: { ops: string[]; con: C[]; entry: string | undefined }[] = []; hist: string[] = []; objs: any = {};
  constructor(readonly c: Ctx, n: number, entry?: string) { for (let i = 0; i < n; i++) { this.progs.push(new Program(entry)); this.model.push({ ops: [], con: [], entry }); } }
  plain(p: any) { const j = JSON.parse(JSON.stringify(p.toPlain())), k = JSON.parse(JSON.stringify(p)); return [j, k]; }
  same() {
    this.progs.forEach((p, i) => { const m = this.model[i]; for (const j of [...this.plain(p), { operators: p.operators, connections: p.connections, entryOperator: p.entryOperator }]) {
      const ops = j.operators.map((o: any) => o.id), con = j.connections.map((x: any) => ({ from: x.from, to: x.to, fromPort: x.fromPort, toPort: x.toPort }));
      const sort = (a: any[]) => JSON.stringify(a.map((x) => JSON.stringify(x)).sort());
      this.c.check(sort(ops) === sort(m.ops), "operators", () => `${this.hist.join("; ")}\n  program ${i + 1} has the operators ${ops}, expected ${m.ops}`);
      this.c.check(sort(con) === sort(m.con), "connections", () => `${this.hist.join("; ")}\n  program ${i + 1} has the connections ${JSON.stringify(con)}, expected ${JSON.stringify(m.con)}`);
      this.c.check(j.entryOperator === m.entry, "entry operator", () => `${this.hist.join("; ")}\n  program ${i + 1} has the entry operator ${j.entryOperator}, expected ${m.entry}`);
      for (const o of j.operators) { const g = canon(o); this.c.check(g === text[o.id], "operator changed", () => `${this.hist.join("; ")}\n  operator ${g}, expected ${text[o.id]}`); }
    } });
    this.c.state(JSON.stringify(this.model));
  }
  attempt(what: string, f: () => void, ok: boolean) { this.hist.push(what + (ok ? "" : " (refused)")); this.c.step(); let e = ""; try { f(); } catch (x: any) { e = String(x?.message ?? x) || "error"; } this.c.check((e === "") === ok, ok ? "refused" : "not refused", () => `${this.hist.join("; ")}\n  ${ok ? "was refused: " + e : "was not refused"}`); this.c.outcome(ok ? "1" : "0"); }
  edits(n: number, kinds: number[], which: string[], fps: string[], tps: string[]) { const k = this.c.choose(n + 1); for (let i = 0; i < k; i++) this.step(this.progs.length > 1 ? this.c.choose(this.progs.length) : 0, kinds, which, fps, tps); this.c.log(() => this.hist.join("\n")); this.same(); }
  // an operator object: the one added, or another one with the same id (connections name operators by id)
  op(id: string) { return (this.objs[id] ??= make[id]()); }
  step(i: number, kinds: number[], which: string[], fps: string[], tps: string[]) {
    const { c } = this, p = this.progs[i], m = this.model[i], tag = this.progs.length > 1 ? `program ${i + 1}: ` : "", k = c.pick(kinds);
    if (k === 0) { const free = which.filter((x) => !m.ops.includes(x)); if (!free.length) return; const id = c.pick(free); m.ops.push(id); if (id === "in") m.entry = id; this.attempt(tag + "add " + id, () => p.addOperator(this.objs[id] = make[id]()), true); }
    else if (k === 1) { const id = c.pick(which); m.ops = m.ops.filter((x) => x !== id); m.con = m.con.filter((x) => x.from !== id && x.to !== id); this.attempt(tag + "delete " + id, () => p.deleteOperator(id), true); }
    else { const from = c.pick(which), to = c.pick(which), fp = c.pick(fps), tp = c.pick(tps), x = { from, to, fromPort: fp || "o1", toPort: tp || "i1" }, text = `${from}${fp && ":" + fp}->${to}${tp && ":" + tp}`, has = m.con.some((y) => JSON.stringify(y) === JSON.stringify(x));
      const args: any[] = fp ? (tp ? [fp, tp] : [fp]) : tp ? [undefined, tp] : [];
      if (k === 2) { const ok = m.ops.includes(from) && m.ops.includes(to) && !has; if (ok) m.con.push(x); this.attempt(tag + "connect " + text, () => p.addConnection(this.op(from), this.op(to), ...args), ok); }
      else { m.con = m.con.filter((y) => JSON.stringify(y) !== JSON.stringify(x)); this.attempt(tag + "disconnect " + text, () => p.deleteConnection(from, to, ...args), true); } }
  }
  add(i: number, id: string) { this.progs[i].addOperator(this.objs[id] = make[id]()); this.model[i].ops.push(id); if (id === "in") this.model[i].entry = id; }
  has(i: number, ...which: string[]) { return which.every((x) => this.model[i].ops.includes(x)); }
  connect(i: number, from: string, to: string, fromPort = "o1", toPort = "i1") { this.progs[i].addConnection(this.op(from), this.op(to), fromPort, toPort); this.model[i].con.push({ from, to, fromPort, toPort }); }
  // all four operators and a fan of parallel and crossing connections
  full(i: number) {
    const p = this.progs[i], m = this.model[i]; this.hist.push(`program ${i + 1}: full`);
    for (const id of ids) { p.addOperator(this.objs[id] = make[id]()); m.ops.push(id); } m.entry = "in";
    for (const [from, fromPort, to, toPort] of [["in", "o1", "a", "i1"], ["in", "o2", "a", "i2"], ["a", "o1", "b", "i1"], ["in", "o1", "b", "i1"], ["a", "o2", "o", "i1"], ["in", "o2", "o", "i1"], ["b", "o1", "o", "i1"]]) { p.addConnection(this.objs[from], this.objs[to], fromPort, toPort); m.con.push({ from, to, fromPort, toPort }); }
  }
}
const m = new Main("C35");
m.bounds = "all sequences of 3 edits (add, delete, connect, disconnect; every pair of 3 operators, ports left out or named) of an empty program, of 2 edits (4 operators, 3x3 ports; 3 thorough) of a fully connected one, 4 edits over two operators; two programs edited in turn; programs read from JSON and edited; operator ids and ports that differ only in case, blanks, prefix or leading zeros; up to 120 connections and 70 operators; every single edited program created in the engine";
m.assumptions = ["class-transformer, json-schema-to-zod, json-schema-to-typescript are not installed: stand-ins cover what the client uses", "adding a second operator under an id in use is not covered: the client does not say what it means"];
m.add("empty, three operators", async (c) => { const w = new World(c, 1); w.edits(3, [0, 1, 2, 3], ["in", "a", "b"], ["", "o2"], [""]); });
m.add("two connected operators", async (c) => { const w = new World(c, 1, "x"); for (const id of ["a", "b"]) { w.progs[0].addOperator(w.objs[id] = make[id]()); w.model[0].ops.push(id); } w.hist.push("a and b"); w.edits(4, [1, 2, 3], ["a", "b"], ["", "o2"], [""]); });
m.add("full program", async (c) => { const w = new World(c, 1); w.full(0); w.edits(2, [0, 1, 2, 3], ids, ["", ...ports], ["", ...inputs]); });
m.add("full program, deep", async (c) => { const w = new World(c, 1); w.full(0); w.edits(3, [0, 1, 2, 3], ids, ["", "o2"], ["", "i2"]); }, true);
m.add("two programs", async (c) => { const w = new World(c, 2); w.full(0); w.full(1); w.edits(2, [0, 1, 2, 3], ["in", "a", "b"], ["", "o2"], ["", "i2"]); });
m.add("program read from JSON", async (c) => { const w = new World(c, 1); w.full(0); const text = JSON.stringify(w.progs[0].toPlain()), p: any = Program.toInstance(JSON.parse(text)); w.hist.push("read back from JSON"); w.progs = [p]; w.edits(2, [1, 2, 3], ["in", "a", "b"], ["", "o2"], ["", "i2"]); });
m.add("ids that look alike", async (c) => { const which = ["a", ...c.pick(alike.map((x, i) => [x, alike[(i + 1) % alike.length]]))], w = new World(c, 1, "x"); for (const id of which) if (c.flip()) w.add(0, id); for (const f of which) for (const t of which) if (f !== t && w.has(0, f, t)) w.connect(0, f, t); w.hist.push(JSON.stringify(w.model[0].ops) + " connected"); w.edits(2, [0, 1, 2, 3], which, ["", "o2"], [""]); });
m.add("ports that look alike", async (c) => { const w = new World(c, 1, "x"); w.add(0, "a"); w.add(0, "b"); const ps = ["o1", "o11", "o", "1", "O1", "o1 "]; for (const p of ps) if (c.flip()) w.connect(0, "a", "b", p, "i1"); w.hist.push("connections from " + w.model[0].con.map((x) => x.fromPort)); w.edits(2, [2, 3], ["a", "b"], ["", ...ps], ["", "i11"]); });
m.add("many connections", async (c) => { const w = new World(c, 1, "x"), which = ["in", "a", "b", "o"]; for (const id of which) w.add(0, id); const n = 10 * c.pick([1, 2, 4, 12]); let k = 0; for (let q = 1; k < n; q++) for (const f of which) for (const t of which) if (k < n && f !== t) { w.connect(0, f, t, "o" + q, "i1"); k++; } w.hist.push(n + " connections"); w.edits(2, [1, 2, 3], which, ["", "o" + c.pick([1, 2, Math.ceil(n / 12)])], [""]); });
m.add("many operators", async (c) => { const w = new World(c, 1, "x"), n = c.pick([9, 17, 33, 70]), all = Array.from({ length: n }, (_, i) => "b" + i); for (const id of all) { if (!make[id]) { protos[id] = new MovingAverage(id, 2); make[id] = () => Object.assign(Object.create(Object.getPrototypeOf(protos[id])), protos[id]); text[id] = canon(protos[id]); } w.add(0, id); } for (let i = 1; i < n; i++) w.connect(0, "b" + (i - 1), "b" + i); w.hist.push(n + " operators in a chain"); w.edits(2, [1, 2, 3], ["b0", "b1", "b" + (n >> 1), "b" + (n - 1)], [""], [""]); });
m.add("sent to the engine", async (c) => { const w = new World(c, 1); w.full(0); w.edits(1, [1, 2, 3], ids, ["", ...ports], ["", ...inputs]); const p = w.progs[0], mm = w.model[0]; if (!mm.ops.includes(mm.entry!) ) return;
  // the engine runs the edited program: it answers as it does for the definition written down from the lists
  const ask = (def: any) => { call("deleteProgram", "q"); try { const e = call("createProgram", "q", JSON.stringify(def)); if (e) return e; for (const [port, t] of [["i1", 1], ["i2", 1], ["i1", 2], ["i1", 3]]) call("addToMessageBuffer", "q", port, t, 5 + Number(t)); const r = JSON.parse(call("processMessageBufferDebug", "q")) ?? {}; return JSON.stringify(Object.entries(r).map(([k, v]: any) => [k, Object.entries(v).map(([q, x]: any) => [q, x.map((y: any) => JSON.stringify(y)).sort()]).sort()]).sort()); } catch (x: any) { return "error: " + x.message; } finally { call("deleteProgram", "q"); } };
  if (hasLoop(mm.con)) return; c.step(2); const got = ask(p.toPlain()), want = ask({ apiVersion: "v1", entryOperator: mm.entry, operators: mm.ops.map((o) => JSON.parse(JSON.stringify(make[o]()))), connections: mm.con });
  c.check(got === want, "engine", () => `${w.hist.join("; ")}\n  the engine answers ${got}, for the same program written down ${want}`); c.outcome(got); });
function hasLoop(con: C[]) { const go = (id: string, seen: string[]): boolean => seen.includes(id) || con.filter((x) => x.from === id).some((x) => go(x.to, [...seen, id])); return [...ids, ...alike].some((i) => go(i, [])); }
m.main();
