import { Ctx, Main } from "./mc";
import { Program, RtBot, RtBotRun, RtBotRunOutputFormat, Input, MovingAverage, Join, Output } from "@client";
import { call, recorded, slot, functions, Call } from "./engine";
import { clientOf } from "./client";
// A run of a program over a table, against an engine that follows a script, and against the real one.
type Msg = { time: number; value: number | null };
const responses: any[] = [{}, { a: { o1: [0] } }, { a: { o1: [0, 1] } }, { a: { o1: [0], o2: [2] }, b: { o1: [3] } }, { b: { o1: [] } }, { b: { o1: [0, 0] } }, { a: { o1: [4] } }];
// times from "off" on, values scaled
let off = 0, scale = 1; const OFFS = [0, 4294967290, 1.7e12, 1.7e15], SCALES = [1, 1e-9, 1e300, 1 / 3];
const scaled = (c: Ctx, f: () => Promise<void>) => { off = c.pick(OFFS); scale = c.pick(SCALES); return f().finally(() => { off = 0; scale = 1; }); };
function response(k: number, row: number): any { return Object.fromEntries(Object.entries(responses[k]).map(([op, ps]: any) => [op, Object.fromEntries(Object.entries(ps).map(([p, ms]: any) => [p, ms.map((x: number) => ({ time: off + 100 * row + x, value: x === 4 ? null : (10 * row + x + 0.5) * scale }))]))])); }
class Scripted {
  programs: Record<string, { text: string; pending: Record<string, any[]> }> = {}; delivered: any[] = []; row = 0; created: string[] = [];
  constructor(readonly ports: string[], readonly creation: number, readonly answers: number[], readonly failAt: number) {}
  has(id: string) { const p = this.programs[id]; if (!p) throw new Error(`Program ${id} was not found`); return p; }
  deliver(m: any) { this.delivered.push(m); const r = this.row++; if (r === this.failAt) throw new Error("the engine refuses row " + r); return JSON.stringify(response(this.answers[r] ?? 0, r)); }
  module(): any {
    const flush = (id: string) => { const p = this.has(id), m = p.pending; p.pending = {}; return this.deliver(m); };
    const batch = (id: string, t: number[], v: number[], ports: string[]) => { this.has(id); const m: any = {}; t.forEach((time, i) => (m[ports[i]] ??= []).push({ time, value: v[i] })); return this.deliver(m); };
    return { validate: () => '{"valid":true}', validateOperator: () => '{"valid":true}',
      createProgram: (id: string, text: string) => { this.created.push(text); if (this.creation === 1) return '{"valid":false,"error":"boom"}'; if (this.creation === 2) throw new Error("boom"); if (this.creation === 3) return "Unable to parse program: boom"; this.programs[id] ??= { text, pending: {} }; return ""; },
      deleteProgram: (id: string) => { const h = id in this.programs; delete this.programs[id]; return h ? "1" : "0"; },
      addToMessageBuffer: (id: string, port: string, time: number, value: number) => { const p = this.has(id); if (!this.ports.includes(port)) throw new Error("no port " + port); (p.pending[port] ??= []).push({ time, value }); return "1"; },
      processMessageBuffer: flush, processMessageBufferDebug: flush, processBatch: batch, processBatchDebug: batch,
      getProgramEntryOperatorId: (id: string) => { this.has(id); return "in"; }, getProgramEntryPorts: (id: string) => { this.has(id); return JSON.stringify(this.ports); }, getProgramOutputFilter: (id: string) => { this.has(id); return "{}"; } };
  }
}
function collapse(outs: any[]) { const r: any = {}; for (const o of outs) for (const [op, ps] of Object.entries(o ?? {}) as any) for (const [p, ms] of Object.entries(ps) as any) for (const m of ms) { const k = (r[`${op}:${p}`] ??= [[], []]); k[0].push(m.time); k[1].push(m.value); } return r; }
const canon = (o: any): string => JSON.stringify(o, (_, v) => (v && typeof v === "object" && !Array.isArray(v) ? Object.fromEntries(Object.entries(v).sort(([a], [b]) => (a < b ? -1 : 1))) : v));
// ports without messages say nothing
const noEmpty = (o: any): any => (o && typeof o === "object" && !Array.isArray(o) ? Object.fromEntries(Object.entries(o).map(([k, v]) => [k, noEmpty(v)] as [string, any]).filter(([, v]) => !(v && typeof v === "object" && !Object.keys(v).length && !("time" in v)))) : o);
const base = { entryOperator: "in", apiVersion: "v1", operators: [{ type: "Input", id: "in", numPorts: 2 }, { type: "MovingAverage", id: "m", n: 2 }], connections: [{ from: "in", to: "m", fromPort: "o1", toPort: "i1" }] };
function described(c: Ctx): { def: any; program: () => any; text: string } {
  const def: any = { ...base }; const extra = c.choose(4); if (extra & 1) { def.title = "t"; def.date = "2024-02-28"; } if (extra & 2) { def.author = "a"; def.license = "l"; def.description = "d"; }
  const how = c.choose(3); if (how === 2 && extra) Object.assign(def, { title: "t", description: "d", date: "2024-02-28", author: "a", license: "l" });
  return { def, text: `${["from text", "from an object", "built"][how]} ${JSON.stringify(def)}`, program: () => { if (how === 0) return JSON.stringify(def); if (how === 1) return Program.toInstance(JSON.parse(JSON.stringify(def)));
    const p: any = extra ? new Program("in", "t", "d", "2024-02-28", "a", "l") : new Program("in"), i = new Input("in", 2), m = new MovingAverage("m", 2); p.addOperator(i); p.addOperator(m); p.addConnection(i, m); return p; } };
}
async function scripted(c: Ctx, maxRows: number, faults: boolean) {
  const creation = faults ? c.choose(4) : 0, np = creation ? 1 : 1 + c.choose(2), rows = creation ? 2 : c.choose(maxRows + 1), answers = [...Array(creation ? 0 : rows)].map(() => c.choose(faults ? 3 : responses.length)), failAt = faults && !creation && rows ? c.choose(rows + 1) : rows, format = c.flip() ? RtBotRunOutputFormat.COLLAPSED : RtBotRunOutputFormat.EXTENDED, d = faults || c.flip() ? described(c) : { def: base, program: () => JSON.stringify(base), text: "from text" }, again = !creation && failAt >= rows && c.flip(), progress = c.flip();
  const ports = ["i1", "i2"].slice(0, np), data = [...Array(rows)].map((_, r) => [off + 3 * r + 1, ...ports.map((_, p) => (r * 10 + p + 0.25) * scale)]), text = () => `${d.text}, ${rows} rows of ${np} values, answers ${answers}${["", ", creation is refused", ", creation throws", ", creation answers text"][creation]}${failAt < rows ? ", row " + failAt + " fails" : ""}${again ? ", run twice" : ""}`; c.log(text);
  const e = new Scripted(ports, creation, answers, failAt); clientOf(e.module());
  const run = new RtBotRun(d.program(), data, format, progress ? () => {} : undefined); let err = ""; try { await run.run(); } catch (x: any) { err = String(x?.message ?? x) || "error"; } c.step(rows + 2);
  const fails = creation > 0 || failAt < rows; c.check((err !== "") === fails, fails ? "no error" : "error", () => `${text()}\n  the run ${err ? "failed with " + err : "did not fail"}`);
  if (creation === 1) c.check(err.includes("boom"), "error lost", () => `${text()}\n  the run failed with ${err} instead of the reason given`);
  c.check(Object.keys(e.programs).length === 0, "program left behind", () => `${text()}\n  the program still exists after the run`);
  c.check(e.created.length === 1, "creation", () => `${text()}\n  the program was created ${e.created.length} times`); const sent = JSON.parse(e.created[0]); for (const k of Object.keys(d.def)) c.check(canon(sent[k]) === canon(d.def[k]), "not as described", () => `${text()}\n  "${k}" was sent as ${JSON.stringify(sent[k])}`);
  const want = data.slice(0, creation ? 0 : Math.min(rows, failAt + 1)).map(([time, ...v]) => Object.fromEntries(ports.map((p, i) => [p, [{ time, value: v[i] }]]))); c.check(canon(e.delivered) === canon(want), "rows", () => `${text()}\n  the engine was sent ${JSON.stringify(e.delivered)}, expected ${JSON.stringify(want)}`);
  if (!fails) { const outs = answers.map((k, r) => response(k, r)), got = run.getOutputs(), exp = format === RtBotRunOutputFormat.COLLAPSED ? collapse(outs) : want.map((x, i) => ({ in: x, out: outs[i] })); const norm = (x: any) => canon(Array.isArray(x) ? x.map((y) => ({ in: y.in, out: noEmpty(y.out) })) : x);
    c.check(norm(got) === norm(exp), "outputs", () => `${text()}\n  returned ${JSON.stringify(got)}, the program emitted ${JSON.stringify(exp)}`); }
  c.state(text() + format + progress); c.outcome(err + JSON.stringify(run.getOutputs()));
}
const family: any[] = [base,
  { entryOperator: "in", operators: [{ type: "Input", id: "in" }, { type: "Difference", id: "d" }, { type: "Count", id: "k" }], connections: [{ from: "in", to: "d" }, { from: "d", to: "k" }] },
  { entryOperator: "in", output: { p: ["o1"] }, operators: [{ type: "Input", id: "in", numPorts: 2 }, { type: "Division", id: "p" }], connections: [{ from: "in", to: "p", fromPort: "o1", toPort: "i1" }, { from: "in", to: "p", fromPort: "o2", toPort: "i2" }] },
  { entryOperator: "j", operators: [{ type: "Join", id: "j", numPorts: 2 }, { type: "CumulativeSum", id: "s" }], connections: [{ from: "j", to: "s", fromPort: "o2" }] },
  { entryOperator: "r", operators: [{ type: "ConstantResampler", id: "r", interval: 1 }], connections: [] },
  { entryOperator: "in", operators: [{ type: "Input", id: "in", numPorts: 11 }, { type: "Identity", id: "x" }], connections: [{ from: "in", to: "x", fromPort: "o10" }] }];
async function real(c: Ctx, maxRows: number) {
  const k = c.choose(family.length), def = family[k], np = [2, 1, 2, 2, 1, 11][k], rows = c.choose(maxRows + 1), values = [0, -1.5, 4]; let t = 0;
  const data = [...Array(rows)].map(() => [off + (t += 1 + c.choose(2)), ...[...Array(np)].map((_, p) => (p < 2 ? c.pick(values) : p) * scale)]), format = c.flip() ? RtBotRunOutputFormat.COLLAPSED : RtBotRunOutputFormat.EXTENDED, text = () => `${JSON.stringify(def)} over ${JSON.stringify(data)}`; c.log(text);
  call("deleteProgram", "ref"); call("createProgram", "ref", JSON.stringify(def)); const ports: string[] = JSON.parse(call("getProgramEntryPorts", "ref")); const outs = data.map(([time, ...v]) => JSON.parse(call("processBatchDebug", "ref", ports.map(() => time), v, ports))); call("deleteProgram", "ref");
  const calls: Call[] = []; clientOf(recorded(calls)); const run = new RtBotRun(JSON.stringify(def), data, format); let err = ""; try { await run.run(); } catch (x: any) { err = String(x?.message ?? x) || "error"; } c.step(rows + 2);
  const ids = [...new Set(calls.filter((x) => x.f === "createProgram").map((x) => x.args[0]))]; c.check(err === "", "error", () => `${text()}\n  the run failed with ${err}`);
  for (const id of ids) { let there = true; try { call("getProgramEntryOperatorId", id); } catch { there = false; } c.check(!there, "program left behind", () => `${text()}\n  the program still exists after the run`); }
  const got = run.getOutputs(), exp = format === RtBotRunOutputFormat.COLLAPSED ? collapse(outs) : data.map(([time, ...v], r) => ({ in: Object.fromEntries(ports.map((p, i) => [p, [{ time, value: v[i] }]])), out: outs[r] })); c.check(canon(got) === canon(exp), "outputs", () => `${text()}\n  returned ${JSON.stringify(got)}, the program emitted ${JSON.stringify(exp)}`); c.state(text() + format); c.outcome(JSON.stringify(got));
}
async function refused(c: Ctx) {
  const bad: any[] = [{}, { ...base, entryOperator: undefined }, { ...base, entryOperator: "x" }, { ...base, operators: [{ type: "Nope", id: "in" }] }, { ...base, operators: [{ type: "Input", id: "in", numPorts: 0 }] }, { ...base, connections: [{ from: "in", to: "zz" }] }, { ...base, connections: [{ from: "in", to: "m", fromPort: "o9" }] }, { ...base, title: 3 }]; const def = c.pick(bad), format = c.flip() ? RtBotRunOutputFormat.COLLAPSED : RtBotRunOutputFormat.EXTENDED, rows = c.choose(3);
  const calls: Call[] = []; clientOf(recorded(calls)); const run = new RtBotRun(JSON.stringify(def), [...Array(rows)].map((_, r) => [r + 1, 2, 3]), format); let err = ""; try { await run.run(); } catch (x: any) { err = String(x?.message ?? x) || "error"; } c.step();
  c.check(err !== "", "no error", () => `${JSON.stringify(def)} was run without an error: ${JSON.stringify(run.getOutputs())}`); for (const id of new Set(calls.map((x) => x.args[0]))) { let there = true; try { call("getProgramEntryOperatorId", id); } catch { there = false; } c.check(!there, "program left behind", () => `${JSON.stringify(def)}: a program exists afterwards`); } c.state(JSON.stringify(def) + format + rows); c.log(() => JSON.stringify(def) + ": " + err);
}
const m = new Main("C37");
m.bounds = "tables of up to 4 rows (5 thorough) and 2 columns against an engine that gives each of 7 answers to every row; creation refused in 3 ways, failure at every row, programs from text, object and built, every subset of descriptive members; 6 real programs (up to 11 entry ports) over all tables of up to 3 rows (4 thorough) from 3 values and 2 time steps; the same with times up to 1.7e15 and values from 1e-9 to 1e300; 8 programs the engine refuses";
m.assumptions = ["the WebAssembly module is replaced by the native engine (or a scripted one) behind the same functions", "every row has one value per entry port; JSON has no infinite or undefined numbers, they arrive as null"];
m.add("scripted engine", (c) => scripted(c, 3, false)); m.add("scripted engine, failures", (c) => scripted(c, 4, true)); m.add("real engine", (c) => real(c, 2)); m.add("scripted engine, other scales", (c) => scaled(c, () => scripted(c, 2, false))); m.add("real engine, other scales", (c) => scaled(c, () => real(c, 2))); m.add("refused", refused); m.add("scripted engine, deep", (c) => scripted(c, 5, false), true); m.add("real engine, deep", (c) => real(c, 3), true);
m.main();
