// The explorer of mc/mc.h for code that runs in node: a driver is an async function of a Ctx; every sequence of choices is executed.
import * as fs from "fs";
export class Fail extends Error { constructor(readonly sig: string, msg: string) { super(msg); } }
class Skip extends Error {}
export function hash(s: string, seed = 0): number {
  let a = 0x811c9dc5 ^ seed, b = 0x1b873593 ^ seed;
  for (let i = 0; i < s.length; i++) { const c = s.charCodeAt(i); a = Math.imul(a ^ c, 0x01000193); b = Math.imul(b ^ c, 0x85ebca6b) ^ (b >>> 13); }
  a ^= a >>> 15; a = Math.imul(a, 0x2c1b3c6d); a ^= a >>> 12; b = Math.imul(b ^ (b >>> 16), 0xc2b2ae35);
  return (a >>> 0) * 0x200000 + ((b >>> 0) & 0x1fffff);
}
export class Ctx {
  arity: number[] = []; trace: string[] = []; steps = 0; out = 7; private decided = false; private prod = 1; private h: number;
  constructor(readonly choices: number[], readonly shard?: { me: number; of: number; states: Set<number> }, readonly cfg = "", readonly verbose = false) { this.h = hash(cfg); }
  choose(n: number): number {
    const i = this.arity.length; if (n <= 0) throw new Error("choose(0)");
    if (i < this.choices.length) { if (this.choices[i] >= n) throw new Error("replay diverged"); } else this.choices.push(0);
    this.arity.push(n); const c = this.choices[i];
    if (this.shard && !this.decided) { this.h = hash(String(c), this.h | 0); this.prod *= n; if (this.prod >= 128) this.decide(); }
    return c;
  }
  decide() { this.decided = true; if (this.shard && this.h % this.shard.of !== this.shard.me) throw new Skip(); }
  settle() { if (!this.decided) this.decide(); }
  pick<T>(a: readonly T[]): T { return a[this.choose(a.length)]; }
  flip(): boolean { return this.choose(2) === 1; }
  step(n = 1) { this.steps += n; }
  state(s: string) { this.shard?.states.add(hash(this.cfg + "\0" + s)); }
  outcome(s: string) { this.out = hash(s, this.out | 0); }
  log(f: () => string) { if (this.verbose) this.trace.push(f()); }
  fail(sig: string, msg: string): never { throw new Fail(sig, msg); }
  check(ok: boolean, sig: string, msg: () => string) { if (!ok) throw new Fail(sig, msg()); }
}
type Config = { name: string; run: (c: Ctx) => Promise<void>; deep: boolean };
export class Main {
  bounds = ""; assumptions: string[] = []; configs: Config[] = [];
  constructor(readonly property: string) {}
  add(name: string, run: (c: Ctx) => Promise<void>, deep = false) { if (this.configs.find((c) => c.name === name)) throw new Error("duplicate config " + name); this.configs.push({ name, run, deep }); }
  async main() {
    const a = process.argv.slice(2), opt = (k: string, n = 1) => { const i = a.indexOf(k); return i < 0 ? undefined : a[i + n]; };
    const log = console.log; console.log = () => {};
    // an unhandled rejection of the code under test is judged through the values its calls settle with, not by ending the worker
    process.on("unhandledRejection", () => {});
    const one = opt("--run");
    if (one) {
      const { config, choices } = JSON.parse(one), cfg = this.configs.find((c) => c.name === config), c = new Ctx(choices, undefined, config, true); let r: any;
      if (!cfg) { r = { status: "error", sig: "", msg: "no config " + config }; log("@@" + JSON.stringify(r)); return; }
      const done = (x: any) => { r = x; log("@@" + JSON.stringify({ ...x, trace: c.trace.join("\n") })); };
      process.on("exit", () => { if (!r) done({ status: "fail", sig: "never settles", msg: "a call never settles: " + c.trace.join("; ") }); });
      try { await cfg.run(c); done({ status: "ok", sig: "", msg: "" }); } catch (e: any) { if (e instanceof Fail) done({ status: "fail", sig: e.sig, msg: e.message }); else done({ status: "fail", sig: "escaped-exception", msg: "unexpected exception: " + (e?.stack ?? e) }); }
      return;
    }
    const me = Number(opt("--worker")), of = Number(opt("--worker", 2)), out = opt("--out")!, only = opt("--config") ?? "", deep = process.env.VERIF_TIER === "thorough", known: string[] = [], ignore: string[] = JSON.parse(process.env.MC_KNOWN ?? "[]");
    const states = new Set<number>(), outcomes = new Set<number>(), execs: Record<string, number> = {}, samples: any[] = [], now = fs.openSync(out + ".now", "w"); let steps = 0, fail: any, finished = false, current: any, width = 0;
    const write = (error?: string) => { finished = true; fs.writeFileSync(out, JSON.stringify({ bounds: this.bounds, assumptions: this.assumptions, states: [...states], outcomes: [...outcomes], execs, steps, samples, fail, known, error })); };
    process.on("exit", () => { if (!finished) { fail = { config: current.config, choices: current.choices, sig: "never settles", msg: "" }; write(); } });
    const list = this.configs.filter((c) => (deep || !c.deep) && c.name.includes(only));
    for (const [ci, cfg] of list.entries()) {
      execs[cfg.name] = 0; let prefix: number[] | undefined = [], mine = 0;
      while (prefix) {
        const c: Ctx = new Ctx(prefix, { me, of, states }, cfg.name); current = { config: cfg.name, choices: c.choices };
        const s = JSON.stringify(current); width = Math.max(width, s.length); fs.writeSync(now, s.padEnd(width), 0);
        let done = false, f: any;
        try { await cfg.run(c); c.settle(); done = true; } catch (e: any) { if (e instanceof Fail) f = e; else if (!(e instanceof Skip)) f = new Fail("escaped-exception", String(e?.stack ?? e)); }
        if (f) { if (ignore.includes(f.sig)) { known.push(f.sig); done = true; } else { fail = { config: cfg.name, choices: c.choices, sig: f.sig, msg: f.message }; return write(); } }
        if (done) { execs[cfg.name]++; steps += c.steps; outcomes.add(hash(cfg.name, c.out | 0)); mine++; if (me === 0 && mine === 3 && ci % Math.ceil(list.length / 3) === 0) samples.push({ config: cfg.name, choices: [...c.choices] }); }
        let n: number = c.arity.length; prefix = undefined;
        while (n > 0) { if (c.choices[n - 1] + 1 < c.arity[n - 1]) { prefix = c.choices.slice(0, n); prefix[n - 1]++; break; } n--; }
      }
    }
    write();
  }
}
