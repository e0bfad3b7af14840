import { Ctx, Main } from "./mc";
import { Program, RtBot, RtBotRun, RtBotRunOutputFormat } from "@client";
import { call, recorded, slot } from "./engine";
import { freshClient } from "./client";
// Calls on the client in flight at once, issued at every relative timing (counted in microtask turns), compared with the same calls one after another.
const defs = [
  { entryOperator: "in", apiVersion: "v1", output: { s: ["o1"] }, operators: [{ type: "Input", id: "in" }, { type: "CumulativeSum", id: "s" }], connections: [{ from: "in", to: "s", fromPort: "o1", toPort: "i1" }] },
  { entryOperator: "in", apiVersion: "v1", operators: [{ type: "Input", id: "in", numPorts: 2 }, { type: "Minus", id: "s" }], connections: [{ from: "in", to: "s", fromPort: "o1", toPort: "i1" }, { from: "in", to: "s", fromPort: "o2", toPort: "i2" }] },
  { entryOperator: "in", apiVersion: "v1", operators: [{ type: "Input", id: "in", numPorts: 12 }, { type: "CumulativeSum", id: "s" }, { type: "Join", id: "j", numPorts: 2 }], connections: [{ from: "in", to: "s", fromPort: "o10", toPort: "i1" }, { from: "in", to: "j", fromPort: "o1", toPort: "i1" }, { from: "s", to: "j", fromPort: "o1", toPort: "i2" }] }];
type Msgs = Record<string, { time: number; value: number }[]>;
type Op = { name: string; run: (w: World) => Promise<any> };
class World {
  rt: any; progs: any[] = [];
  constructor(readonly tag: string) {}
  id(i: number) { return this.tag + i; }
  async open(load: Promise<any>) {
    slot.load = () => load; freshClient(); this.rt = RtBot.getInstance();
    for (const [i, d] of defs.entries()) { call("deleteProgram", this.id(i)); const e = call("createProgram", this.id(i), JSON.stringify(d)); if (e) throw new Error(e); const p: any = Program.toInstance(d as any); p.programId = this.id(i); p.defaultPort = "i1"; this.progs.push(p); }
  }
  close() { for (const i of [0, 1, 2]) call("deleteProgram", this.id(i)); }
}
let clock = 0, origin = 0;
const msg = () => { clock++; return { time: origin + clock, value: ((clock * 7) % 10) - 3 + (origin ? 0.1 : 0) }; };
const kinds: [string, (w: World, m: Msgs) => Promise<any>, (n: () => any) => Msgs][] = [
  ["process(1)", (w, m) => w.rt.process(w.id(0), m), (n) => ({ i1: [n()] })],
  ["processDebug(1)", (w, m) => w.rt.processDebug(w.id(0), m), (n) => ({ i1: [n(), n()] })],
  ["processMessage(1)", (w, m) => w.progs[0].processMessage(m.i1[0].time, m.i1[0].value), (n) => ({ i1: [n()] })],
  ["process(2)", (w, m) => w.rt.process(w.id(1), m), (n) => { const a = n(); return { i1: [a], i2: [{ ...a, value: a.value + 1 }] }; }],
  ["processMessageDebug(2, i2)", (w, m) => w.progs[1].processMessageDebug(m.i2[0].time, m.i2[0].value, "i2"), (n) => ({ i2: [n()] })],
  ["process(1), no messages", (w, m) => w.rt.process(w.id(0), m), () => ({})],
  ["process(1) with an unknown port", (w, m) => w.rt.process(w.id(0), m), (n) => ({ i1: [n()], i7: [n()] })],
  ["processDebug(2) with an unknown port", (w, m) => w.rt.processDebug(w.id(1), m), (n) => { const a = n(); return { i2: [a], x: [a], i1: [a] }; }],
  ["process of an unknown program", (w, m) => w.rt.process(w.id(7), m), (n) => ({ i1: [n()] })],
  ["process(3, i10)", (w, m) => w.progs[2].processMessage(m.i10[0].time, m.i10[0].value, "i10"), (n) => ({ i10: [n()] })],
  ["processDebug(3, i1)", (w, m) => w.progs[2].processMessageDebug(m.i1[0].time, m.i1[0].value, "i1"), (n) => ({ i1: [n()] })],
  ["processMessageDebug(3, i12)", (w, m) => w.progs[2].processMessageDebug(m.i12[0].time, m.i12[0].value, "i12"), (n) => ({ i12: [n()] })],
  ["processMessage(2, i2)", (w, m) => w.progs[1].processMessage(m.i2[0].time, m.i2[0].value, "i2"), (n) => ({ i2: [n()] })],
  ["processMessage(2)", (w, m) => w.progs[1].processMessage(m.i1[0].time, m.i1[0].value), (n) => ({ i1: [n()] })],
  ["processMessageDebug(2)", (w, m) => w.progs[1].processMessageDebug(m.i1[0].time, m.i1[0].value), (n) => ({ i1: [n()] })],
  ["processMessage(3, i12)", (w, m) => w.progs[2].processMessage(m.i12[0].time, m.i12[0].value, "i12"), (n) => ({ i12: [n()] })],
  ["processMessage(3)", (w, m) => w.progs[2].processMessage(m.i1[0].time, m.i1[0].value), (n) => ({ i1: [n()] })],
  ["processDebug(3), i1 and i10", (w, m) => w.rt.processDebug(w.id(2), m), (n) => { const a = n(); return { i1: [a], i10: [a] }; }],
];
const outcome = (p: Promise<any>) => p.then((v) => "resolved with " + JSON.stringify(v), (e) => "rejected");
const turns = async (n: number) => { for (let i = 0; i < n; i++) await null; };
async function scenario(c: Ctx, n: number, gap: number, few?: number[]) {
  clock = 0; const ops = [...Array(n)].map(() => (few ? kinds[c.pick(few)] : kinds[c.choose(9)])), msgs = ops.map((o) => o[2](msg)), gaps = ops.map((_, i) => (i ? c.choose(gap + 1) : 0)), late = c.choose(3);
  const text = () => ops.map((o, i) => `${i ? `after ${gaps[i]} turns ` : ""}${o[0]} ${JSON.stringify(msgs[i])}`).join("; ") + (late ? `; the engine loads ${["", "after 2 turns", "after all calls"][late]}` : "");
  c.log(text);
  const alone = new World("a"); await alone.open(Promise.resolve(recorded([]))); const want: string[] = []; for (const [i, o] of ops.entries()) want.push(await outcome(o[1](alone, msgs[i])));
  // alone, a call is its messages, on their ports, given to the engine
  const plain = new World("d"); await plain.open(Promise.resolve(recorded([])));
  for (const [i, o] of ops.entries()) { if (o[0].includes("unknown")) { c.check(want[i] === "rejected", "not refused", () => `${o[0]} ${JSON.stringify(msgs[i])}: ${want[i]}`); continue; } const id = plain.id(Number(/\((\d)/.exec(o[0])![1]) - 1);
    for (const [port, ms] of Object.entries(msgs[i])) for (const { time, value } of ms) call("addToMessageBuffer", id, port, time, value);
    const d = "resolved with " + JSON.stringify(JSON.parse(call(o[0].includes("Debug") ? "processMessageBufferDebug" : "processMessageBuffer", id))); c.check(want[i] === d, "result", () => `${ops.slice(0, i + 1).map((o, i) => o[0] + " " + JSON.stringify(msgs[i])).join("; ")}\n  the last call ${want[i]}, the engine, given the same messages, ${d}`); }
  plain.close();
  let loaded!: (e: any) => void; const load = late ? new Promise<any>((r) => (loaded = r)) : Promise.resolve(recorded([])), w = new World("b"); await w.open(load); await turns(5); if (late === 1) turns(2).then(() => loaded(recorded([])));
  const got: Promise<string>[] = []; for (const [i, o] of ops.entries()) { await turns(gaps[i]); c.step(); got.push(outcome(o[1](w, msgs[i]))); } if (late === 2) loaded(recorded([])); const res = await Promise.all(got);
  for (const i of ops.keys()) c.check(res[i] === want[i], "mixed", () => `${text()}\n  call ${i + 1} ${res[i]}, alone it is ${want[i]}`);
  // what is left behind: nothing pending, same state
  const rest = (x: World) => [0, 1, 2].map((i) => [call("processMessageBufferDebug", x.id(i)), call("processBatchDebug", x.id(i), [90, 90, 91, 91].map((t) => origin + t).slice(0, [1, 2, 4][i]), [1, 2, 3, 4].slice(0, [1, 2, 4][i]), [["i1"], ["i1", "i2"], ["i1", "i10", "i10", "i1"]][i])]); const ra = JSON.stringify(rest(alone)), rb = JSON.stringify(rest(w));
  c.check(ra === rb, "state", () => `${text()}\n  afterwards the programs answer ${rb}, one call after another ${ra}`); c.check(JSON.parse(ra).every((x: any) => x[0] === "{}"), "messages left behind", () => `${ops.map((o, i) => o[0] + " " + JSON.stringify(msgs[i])).join("; ")}\n  afterwards messages are still waiting: ${ra}`);
  c.outcome(res.join()); c.state(text()); alone.close(); w.close();
}
// two whole runs over different programs at once
async function runs(c: Ctx) {
  const data = [[[1, 5], [2, 3]], [[1, 5, 2], [2, 3, 8], [3, 1, 1]]], fmt = [c.flip(), c.flip()].map((x) => (x ? RtBotRunOutputFormat.COLLAPSED : RtBotRunOutputFormat.EXTENDED)), which = [c.choose(2), c.choose(2)], gap = c.choose(12), late = c.flip();
  const one = (i: number) => { const p: any = Program.toInstance(defs[which[i]] as any); return new RtBotRun(p, data[which[i]], fmt[i]); }; const text = () => `runs of program ${which[0] + 1} and, ${gap} turns later, program ${which[1] + 1}`; c.log(text);
  const start = (l: Promise<any>) => { slot.load = () => l; freshClient(); };
  start(Promise.resolve(recorded([]))); const want: string[] = []; for (const i of [0, 1]) { const r = one(i); await r.run(); want.push(JSON.stringify(r.getOutputs())); }
  let loaded!: (e: any) => void; start(late ? new Promise((r) => (loaded = r)) : Promise.resolve(recorded([]))); const a = one(0), b = one(1), pa = a.run(); await turns(gap); const pb = b.run(); if (late) loaded(recorded([])); await Promise.all([pa, pb]); c.step(2);
  [a, b].forEach((r, i) => c.check(JSON.stringify(r.getOutputs()) === want[i], "mixed", () => `${text()}\n  run ${i + 1} returned ${JSON.stringify(r.getOutputs())}, alone ${want[i]}`)); c.state(text() + fmt + late); c.outcome(want.join());
}
// stopped and started anew under the same id, with another definition: what went before must not matter
async function restarts(c: Ctx) {
  const order = [c.choose(3), c.choose(3), c.choose(3)], gap = c.choose(4), id = "r0"; slot.load = () => Promise.resolve(recorded([])); freshClient(); call("deleteProgram", id); const ports = [["i1"], ["i1", "i2"], ["i1", "i10", "i12"]], hist: string[] = []; c.log(() => hist.join("; "));
  for (const [k, which] of order.entries()) {
    const p: any = Program.toInstance(defs[which] as any); p.programId = id; const alone = "r9"; call("deleteProgram", alone); if (call("createProgram", alone, JSON.stringify(defs[which]))) throw new Error("create");
    hist.push(`start program ${which + 1}`); await p.start(); await turns(gap); c.step();
    for (const [i, port] of [...ports[which], undefined, "i11"].entries()) { const time = 10 + 5 * i + k, value = i + 0.5 * k, ok = port !== "i11" || which === 2, method = i % 2 ? "processMessage" : "processMessageDebug"; hist.push(`${method}(${time}, ${value}, ${port})`);
      const got = await outcome(p[method](time, value, port)); if (ok) call("addToMessageBuffer", alone, port ?? "i1", time, value); const want = ok ? "resolved with " + JSON.stringify(JSON.parse(call(i % 2 ? "processMessageBuffer" : "processMessageBufferDebug", alone))) : "rejected";
      c.check(got === want, "restarted", () => `${hist.join("; ")}\n  ${got}, a program started for the first time: ${want}`); c.outcome(got); }
    hist.push("stop"); await p.stop(); c.check((await outcome(p.processMessage(99, 1))) === "rejected", "stopped", () => `${hist.join("; ")}\n  a message to the stopped program was not refused`); call("deleteProgram", alone);
  }
  c.state(hist.join());
}
const m = new Main("C36");
m.bounds = "2 and 3 calls out of 9 kinds (process and processDebug on two programs, through the program object, no messages, unknown ports, unknown program), each issued 0 to 5 (3 calls: 3) microtask turns after the previous one, engine module already loaded, loading, or loaded after all calls were made; 4 calls over two kinds; a program with 12 ports; 3 calls with and without a port on programs with several; times up to 1.7e15; two whole runs at once, 0 to 11 turns apart; three programs started and stopped under one id one after another, every choice out of three definitions";
m.assumptions = ["the WebAssembly module is replaced by the native engine behind the same functions", "calls into the engine are synchronous, so the schedules of the client differ only in the turn each call is made"];
m.add("two calls", (c) => scenario(c, 2, 5)); m.add("three calls", (c) => scenario(c, 3, 3)); m.add("four calls", (c) => scenario(c, 4, 3, [0, 6])); m.add("whole runs", runs); m.add("stopped and started anew", restarts);
m.add("many ports", (c) => scenario(c, 2, 3, [9, 10, 11, 17, 3])); m.add("with and without a port", (c) => scenario(c, 3, 1, [4, 12, 13, 14, 15, 16])); m.add("times of a clock", async (c) => { origin = c.pick([4294967290, 1.7e12, 1.7e15]); await scenario(c, 2, 2).finally(() => (origin = 0)); });
m.add("four calls, deep", (c) => scenario(c, 4, 2, [0, 1, 2, 3, 6]), true); m.add("five calls, deep", (c) => scenario(c, 5, 2, [0, 1, 6]), true);
m.main();
