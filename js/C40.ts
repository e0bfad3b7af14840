import { Ctx, Main } from "./mc";
import * as fs from "fs"; import * as os from "os"; import * as path from "path";
import { Program, RtBot } from "@client";
import { call, recorded, slot } from "./engine";
import { clientOf } from "./client";
import { registerDebug } from "@cli/commands/debug";
import { tui } from "@cli/tui";
import { Command, commands } from "commander";
import { made, forget } from "blessed";
import { resetStores } from "zustand/vanilla";
// The debugger's screen under every sequence of keys and selections, and the debug command over every small table.
type Msg = { time: number; value: number };
const real = { setInterval: globalThis.setInterval, clearInterval: globalThis.clearInterval, setTimeout: globalThis.setTimeout, clearTimeout: globalThis.clearTimeout, exit: process.exit };
class Exit extends Error { constructor(readonly code: any) { super("exit " + code); } }
class Clock { timers = new Map<number, () => void>(); n = 0;
  install() { const g: any = globalThis; g.setInterval = (f: any) => { this.timers.set(++this.n, f); return this.n; }; g.clearInterval = (k: any) => this.timers.delete(k); g.setTimeout = () => ++this.n; g.clearTimeout = () => {}; (process as any).exit = (c: any) => { throw new Exit(c); }; }
  remove() { Object.assign(globalThis, real); process.exit = real.exit; }
  tick() { [...this.timers.values()].forEach((f) => f()); } }
type OpDef = { type: string; id: string; numPorts?: number };
const graphs: OpDef[][] = [
  [{ type: "Input", id: "in" }, { type: "Demultiplexer", id: "d", numPorts: 2 }, { type: "Join", id: "j", numPorts: 3 }],
  [{ type: "Input", id: "a:b", numPorts: 1 }, { type: "Count", id: "a" }, { type: "Join", id: "x:y", numPorts: 2 }],
  [{ type: "Input", id: "in", numPorts: 1 }, { type: "Demultiplexer", id: "in2", numPorts: 12 }, { type: "Count", id: "IN" }]];
// what an iteration emitted, by operator number and port
const emissions: [number, string, Msg[]][][] = [[], [[0, "o1", [{ time: 3, value: 1.005 }]]], [[0, "o1", [{ time: 4, value: -2.125 }]], [1, "o1", [{ time: 4, value: 7 }]], [2, "o2", [{ time: 4, value: 0.333 }, { time: 5, value: 12 }]]], [[1, "o2", [{ time: 6, value: 1234567.891 }]]], [[2, "o1", [{ time: 1700000000123, value: 0 }]], [2, "o2", [{ time: 8, value: 1.5 }]], [2, "o3", [{ time: 8, value: 2.5 }]]], [[1, "o1", [{ time: 9, value: -0.005 }]], [1, "o10", [{ time: 9, value: 1e21 }]], [1, "o12", [{ time: 9, value: 123456.785 }, { time: 9, value: 1e-7 }]], [2, "o1", [{ time: 9, value: -99999999.999 }]]]];
const ports = (o: OpDef) => [...Array(o.numPorts ?? 1)].map((_, i) => `o${i + 1}`), known = (o: OpDef, p: string) => ports(o).includes(p);
function outOf(ops: OpDef[], k: number): any { const r: any = {}; for (const [o, p, m] of emissions[k]) if (known(ops[o], p)) (r[ops[o].id] ??= {})[p] = m; return r; }
// the table promised for iteration `it`
function table(ops: OpDef[], chosen: boolean[], outs: any[], it: number): string[][] {
  const cols = ops.flatMap((o, i) => (chosen[i] ? ports(o).map((p) => ({ o, p, head: ports(o).length > 1 ? `${o.id}:${p}` : o.id })) : [])), rows: string[][] = [["iter", ...cols.map((x) => x.head)]];
  if (it > 0) for (let i = it - 1; i < outs.length && i < it + 10; i++) rows.push([`${i}`, ...cols.map(({ o, p }) => { const m: Msg[] | undefined = outs[i][o.id]?.[p]; return m ? m.map((x) => `(${x.time}, ${Math.round(x.value * 100) / 100})`).join(", ") : "-"; })]);
  return rows;
}
const keysOf = ["right", "left", "p", "b", "s", "tick"];
async function screen(c: Ctx, sizes: number[], depth: number, shape: number, alphabet: string[], wide = false) {
  const g = wide ? 2 : c.choose(2), ops = graphs[g], n = c.pick(sizes), ks = [...Array(n)].map((_, i) => (shape ? (i * shape + 1) % emissions.length : c.choose(emissions.length))), outs = ks.map((k) => outOf(ops, k));
  const result = outs.map((out, i) => ({ in: { i1: [{ time: i, value: i }] }, out })), p: any = Program.toInstance({ entryOperator: ops[0].id, operators: ops.map((o) => ({ ...o })), connections: [] } as any), clock = new Clock(), done: string[] = [];
  const text = () => `${JSON.stringify(ops)}, ${n} iterations with emissions ${ks}; keys ${done}`; c.log(() => text());
  resetStores(); forget(); clock.install();
  try {
    let it = 0, mode = "s"; const chosen = ops.map(() => true), frozen = JSON.stringify(result); let left = false;
    const judge = () => { const t = made.tables[made.tables.length - 1]?.rows, want = table(ops, chosen, outs, it); c.step(); c.log(() => `${done[done.length - 1] ?? "start"}: ${JSON.stringify(t)}`);
      c.check(JSON.stringify(t) === JSON.stringify(want), "table", () => `${text()}\n  the table is ${JSON.stringify(t)}\n  the program's run gives ${JSON.stringify(want)}`); c.state([g, ks, it, mode, chosen].join(";")); c.outcome(JSON.stringify(want)); };
    const act = (f: () => void) => { try { f(); } catch (e: any) { if (e instanceof Exit) { left = true; return; } c.fail("failed", `${text()}\n  the screen failed: ${e?.message ?? e}`); } };
    act(() => tui(p, result as any)); judge(); const s = made.screens[0];
    for (let i = 0; i < depth && !left; i++) {
      const a = c.choose(alphabet.length + ops.length), key = alphabet[a] ?? `toggle ${ops[a - alphabet.length].id}`; done.push(key);
      if (key === "tick") act(() => clock.tick()); else if (a < alphabet.length) act(() => s.press(key));
      else { const k = a - alphabet.length; chosen[k] = !chosen[k]; const cb = made.checkboxes.filter((x) => x.options.text === `${ops[k].id} [${ops[k].type}]`).pop(); c.check(!!cb, "no checkbox", () => `${text()}\n  there is no checkbox for ${ops[k].id}`); c.check(cb.checked === !chosen[k], "checkbox", () => `${text()}\n  the checkbox of ${ops[k].id} shows ${cb.checked}`); act(() => (chosen[k] ? cb.check() : cb.uncheck())); }
      const step = (d: number) => (it = Math.max(0, Math.min(n, it + d)));
      if (key === "right") step(1); if (key === "left") step(-1); if (key === "p" || key === "b" || key === "s") mode = key; if (key === "tick") { if (mode === "p") step(1); if (mode === "b") step(-1); }
      judge();
    }
    c.check(JSON.stringify(result) === frozen, "result changed", () => `${text()}\n  the run's outputs were changed by looking at them`);
  } finally { clock.remove(); }
}
const programs: any[] = [
  { title: "t", apiVersion: "v1", entryOperator: "in", operators: [{ type: "Input", id: "in" }, { type: "Difference", id: "d" }], connections: [{ from: "in", to: "d", fromPort: "o1", toPort: "i1" }] },
  { title: "t", apiVersion: "v1", entryOperator: "s", operators: [{ type: "CumulativeSum", id: "s" }, { type: "Join", id: "j", numPorts: 2 }], connections: [{ from: "s", to: "j", fromPort: "o1", toPort: "i1" }, { from: "s", to: "j", fromPort: "o1", toPort: "i2" }] }];
const badPrograms: any[] = [{ ...programs[0], operators: [{ type: "Nothing", id: "in" }] }, { ...programs[0], connections: [{ from: "in", to: "nobody" }] }, { ...programs[0], entryOperator: "nobody" }];
const cells = [["1", "10"], ["2", "-0.5"], ["3.4", "2.5"], ["5", "x"], ["time", "value"], ["7"], ["8", " 4", "99"], ["", "3"], [""]];
registerDebug(new Command());
async function command(c: Ctx, rowsOf: (c: Ctx) => string[][], faulty: boolean) {
  const bad = faulty ? [-3, -2, ...badPrograms.keys()][c.choose(badPrograms.length + 2)] : -1, k = c.choose(programs.length), def = bad >= 0 ? badPrograms[bad] : programs[k], given: Record<string, any> = {}; const sv = c.choose(3), st = c.choose(3), toFile = c.flip(), verbose = c.flip(), inter = !faulty && c.flip();
  if (sv) given["scale-value-factor"] = ["", "10", "0.5"][sv]; if (st) given["scale-time-factor"] = ["", "1000", "0.5"][st]; if (verbose) given.verbose = true; if (inter) given.interactive = true;
  const rows = rowsOf(c), d = fs.mkdtempSync(path.join(os.tmpdir(), "c40-")), csv = rows.map((r) => r.join(",")).join("\n") + (rows.length && c.flip() ? "\n" : ""), out = path.join(d, "out.json"); if (toFile) given.output = out;
  const text = () => `debug ${JSON.stringify(def)} over ${JSON.stringify(csv)} with ${JSON.stringify(given)}${bad < -1 ? (bad === -3 ? ", the table cannot be read" : ", the program cannot be read") : ""}`; c.log(text);
  fs.writeFileSync(path.join(d, "p.json"), JSON.stringify(def)); fs.writeFileSync(path.join(d, "d.csv"), csv); if (bad === -3) fs.unlinkSync(path.join(d, "d.csv")); if (bad === -2) fs.unlinkSync(path.join(d, "p.json"));
  const calls: any[] = []; clientOf(recorded(calls)); resetStores(); forget();
  const lines: string[] = [], log = console.log, error = console.error, clock = new Clock(); let failed = "", res: any; console.log = (...a: any[]) => { lines.push(a.map(String).join(" ")); }; console.error = console.log; clock.install();
  try { await commands.debug.invoke([path.join(d, "p.json"), path.join(d, "d.csv")], given); } catch (e: any) { failed = String(e?.message ?? e) || "error"; } finally { clock.remove(); console.log = log; console.error = error; }
  try { if (toFile && fs.existsSync(out)) res = fs.readFileSync(out, "utf8"); else if (!toFile) res = lines[lines.length - 1]; } catch {} fs.rmSync(d, { recursive: true, force: true }); c.step(rows.length + 1);
  if (faulty) { c.check(failed !== "" && failed !== "exit 0", "no error", () => `${text()}\n  the command ended without an error`); if (toFile) c.check(res === undefined, "output of a failed run", () => `${text()}\n  a failed run wrote ${res}`); c.check(calls.filter((x) => x.f === "createProgram" && x.result === "").length === calls.filter((x) => x.f === "deleteProgram" && x.result === "1").length, "program left behind", () => text()); c.state(text()); c.outcome(failed); return; }
  c.check(failed === "", "failed", () => `${text()}\n  the command failed: ${failed} ${lines.join(" | ").slice(-300)}`);
  const data = rows.map((r) => [Math.round(Number(given["scale-time-factor"] ?? 1) * parseFloat(r[0])), Number(given["scale-value-factor"] ?? 1) * parseFloat(r[1] ?? "")]).filter(([t, v]) => !isNaN(t) && !isNaN(v));
  call("deleteProgram", "ref"); call("createProgram", "ref", JSON.stringify(def)); const want = data.map(([t, v]) => ({ in: { i1: [{ time: t, value: v }] }, out: JSON.parse(call("processBatchDebug", "ref", [t], [v], ["i1"])) })); call("deleteProgram", "ref");
  const sorted = (o: any): any => JSON.stringify(o, (_, v) => (v && typeof v === "object" && !Array.isArray(v) ? Object.fromEntries(Object.entries(v).sort(([a], [b]) => (a < b ? -1 : 1))) : v));
  if (inter) { const ops: OpDef[] = def.operators; c.check(made.screens.length === 1, "no screen", () => text()); clock.install(); try { for (let i = 0; i <= want.length + 1; i++) { const t = made.tables[0].rows, w = table(ops, ops.map(() => true), want.map((x) => x.out), Math.min(i, want.length)); c.check(JSON.stringify(t) === JSON.stringify(w), "table", () => `${text()}\n  after ${i} steps the table is ${JSON.stringify(t)}\n  the program's run gives ${JSON.stringify(w)}`); made.screens[0].press("right"); } } finally { clock.remove(); } }
  else { let got: any; try { got = JSON.parse(res); } catch { c.fail("no result", `${text()}\n  the command wrote ${res}`); }
    c.check(sorted(got) === sorted(want), "result", () => `${text()}\n  the command wrote ${sorted(got)}\n  the program's run gives ${sorted(want)}`); if (!toFile && !verbose) c.check(lines.length === 1, "noise", () => `${text()}\n  the command printed ${lines.length} times`); }
  c.check(calls.filter((x) => x.f === "createProgram").length === 1 && calls.filter((x) => x.f === "deleteProgram" && x.result === "1").length === 1, "program left behind", () => text()); c.state(text()); c.outcome(sorted(want));
}
const many = (n: number) => (c: Ctx) => [...Array(n)].map((_, i) => [`${i + 1}`, `${(i * 7) % 5}`]);
const small = (n: number) => (c: Ctx) => [...Array(c.choose(n + 1))].map(() => c.pick(cells));
const m = new Main("C40");
m.bounds = "EVERY sequence of 5 keys, timer ticks and selections over two programs and every run of up to 2 iterations out of 6 emissions, of 4 (right and left: 14) over runs of 3 to 30 iterations; the debug command over EVERY table of up to 2 rows out of 9 (numbers, text, missing cells, extra cells, empty lines), two programs, scale factors, output to file and to the screen, verbose, interactive; tables of 19 to 45 rows; unreadable files and refused programs";
m.assumptions = ["terminal, state store, CSV parser and option parser are stand-ins", "the number of ports of an operator is given in the program"];
m.add("screen", (c) => screen(c, [0, 1, 2], 3, 0, keysOf)); m.add("screen, one iteration, more keys", (c) => screen(c, [1], 5, 0, keysOf)); m.add("screen, many ports", (c) => screen(c, [1, 2], 3, 0, keysOf, true)); m.add("screen, longer runs", (c) => screen(c, [3, 9, 10, 11, 12, 30], 4, 2, keysOf)); m.add("screen, to the end and back", (c) => screen(c, [9, 11, 12, 13], 14, 3, ["right", "left"].slice(0, 2)), true);
m.add("screen, playing", (c) => screen(c, [2, 12], 6, 1, ["p", "b", "s", "tick"]), true);
m.add("command", (c) => command(c, small(2), false)); m.add("command, many rows", (c) => command(c, many([19, 20, 25, 45][c.choose(4)]), false)); m.add("command, failures", (c) => command(c, many(2), true)); m.add("command, 3 rows", (c) => command(c, small(3), false), true);
m.main();
