import * as fs from "fs";
import { Ctx, Main } from "./mc";
import * as client from "@client";
import { call } from "./engine";
// Every documented operator: the class generated for it, the program schema generated for it, and what the engine makes of an omitted parameter.
const docs: any[] = JSON.parse(fs.readFileSync(process.env.RT_DOCS!, "utf8")), canon = (o: any): string => JSON.stringify(o, (_, v) => (v && typeof v === "object" && !Array.isArray(v) ? Object.fromEntries(Object.entries(v).sort(([a], [b]) => (a < b ? -1 : 1))) : v));
const typeOf = (s: any): string => s.properties.type.enum[0], params = (s: any): string[] => Object.keys(s.properties).filter((p) => p !== "type");
function good(p: any): any[] {
  if (p.enum) return p.enum;
  if (p.type === "integer") return [...new Set([p.minimum ?? -3, (p.minimum ?? 0) + 1, 7])];
  if (p.type === "number") return [0.5, -2, 0];
  if (p.type === "string") return ["a", "b c"];
  if (p.type !== "array") throw new Error("values of " + JSON.stringify(p));
  const lo = p.minItems ?? 0, hi = p.maxItems ?? lo + 2, row = (n: number) => [...Array(n)].map((_, i) => (p.items.type === "array" ? [i, i * i + 0.5] : p.items.type === "string" ? "s" + i : i * i - 0.5)); return [...new Set([lo, hi, 4])].filter((n) => n >= lo && n <= hi).map(row);
}
function bad(p: any): any[] {
  const r: any[] = [null, true, {}]; if (p.enum) return [...r, "other", 3]; if (p.type === "string") return [...r, 3, []];
  if (p.type === "integer" || p.type === "number") return [...r, "3", [], ...(p.type === "integer" ? [1.5] : []), ...("minimum" in p ? [p.minimum - 1, -1000] : [])];
  const g = good(p)[0]; return [...r, 3, "x", ...(p.minItems ? [[], g.slice(1)] : []), [...g, "x"], [...g, null], ...(p.items.type === "array" ? [[...g, 1], [...g, [1]], [...g, [1, 2, 3]], [...g, [1, "x"]]] : [[...g, [1]]])];
}
// one value per parameter; at most `faults` of them not as documented
function values(c: Ctx, s: any, faults: number) {
  const v: any = {}, odd: string[] = []; for (const k of params(s)) { const p = s.properties[k], req = s.required.includes(k), g = good(p), b = odd.length < faults ? bad(p) : [], omit = !req || (odd.length < faults && k !== "id"), x = c.choose(g.length + b.length + (omit ? 1 : 0));
    if (x < g.length) v[k] = g[x]; else if (x < g.length + b.length) { v[k] = b[x - g.length]; odd.push(k); } else if (req) odd.push(k); }
  return { v, odd };
}
async function classes(c: Ctx, faults: number) {
  const s = c.pick(docs), type = typeOf(s), cls = (client as any)[type], { v, odd } = values(c, s, faults), args = params(s).map((k) => v[k]); while (args.length && args[args.length - 1] === undefined) args.pop();
  const text = () => `new ${type}(${args.map((x) => JSON.stringify(x)).join(", ")})`; c.log(text); c.check(typeof cls === "function", "no class", () => `${type} is documented and has no class`); c.step();
  let o: any, err = ""; try { o = new cls(...args); } catch (x: any) { err = String(x?.message ?? x) || "error"; }
  c.check((err !== "") === odd.length > 0, odd.length ? "not refused" : "refused", () => `${text()} ${err ? "is refused: " + err : "is accepted: " + JSON.stringify(o)}`); c.outcome(err ? "1" : canon(o)); c.state(text());
  const p = new client.Program("in") as any, definition = { type, ...v }; 
  // the client's schema of whole programs
  const whole = JSON.stringify({ apiVersion: "v1", entryOperator: "in", operators: [{ type: "Input", id: "in" }, definition], connections: [] }); let e2 = ""; try { client.Program.checkValid(whole); } catch (x: any) { e2 = String(x?.message ?? x) || "error"; } c.step();
  c.check((e2 !== "") === odd.length > 0, odd.length ? "program not refused" : "program refused", () => `${whole}\n  ${e2 ? "is refused: " + e2 : "is accepted"}`);
  let e3 = ""; try { client.Program.toInstance(JSON.parse(whole)).validate(); } catch (x: any) { e3 = "error"; } c.check((e3 !== "") === (e2 !== ""), "validate", () => `${whole}\n  checkValid and validate disagree`); const sv: any = client.Program.toInstance(JSON.parse(whole)).safeValidate(); c.check(sv.success === (e2 === ""), "safeValidate", () => `${whole}\n  safeValidate answers ${sv.success}`);
  const valid = JSON.parse(call("validateOperator", type, JSON.stringify(definition))).valid; c.step(); c.check(valid === (odd.length === 0), "engine", () => `${JSON.stringify(definition)}: the engine's validation answers ${valid}`);
  if (odd.length) return;
  c.check(canon(JSON.parse(JSON.stringify(o))) === canon(definition), "definition", () => `${text()} describes ${JSON.stringify(o)}`); p.addOperator(o);
  for (const j of [JSON.parse(JSON.stringify(p)), p.toPlain()]) c.check(canon(j.operators) === canon([definition]), "definition in program", () => `a program with ${text()} has the operators ${JSON.stringify(j.operators)}`);
}
// what the engine does with an operator: answers to a few messages, however it can be connected
function behaviour(def: any, ways?: string[][]): { way: string[]; text: string } | undefined {
  for (const way of ways ?? [["i1", "i2"], ["i1", "c1"], ["i1"]]) {
    call("deleteProgram", "q"); try {
      const e = call("createProgram", "q", JSON.stringify({ apiVersion: "v1", entryOperator: "in", operators: [{ type: "Input", id: "in", numPorts: 2 }, def], connections: way.map((toPort, i) => ({ from: "in", to: def.id, fromPort: "o" + (i + 1), toPort })) })); if (e) throw new Error(e);
      let text = ""; for (let t = 1; t <= 8; t++) { text += call("processBatchDebug", "q", [3 * t, 3 * t], [[0.75, 2.5, -1, 0.25, 1.75, 0.5, 3, 1][t - 1], t % 3 ? 1 : 0], ["i1", "i2"]) + "\n"; }
      return { way, text };
    } catch (x: any) { if (ways) return { way, text: "error: " + x.message }; } finally { call("deleteProgram", "q"); }
  }
}
async function omitted(c: Ctx) {
  const s = c.pick(docs), type = typeOf(s), { v } = values(c, s, 0); const missing = params(s).filter((k) => !(k in v)), full = { type, ...v, ...Object.fromEntries(missing.map((k) => [k, s.properties[k].default])) }; if (v.id !== "a" || !missing.length) { c.settle(); return; }
  c.log(() => JSON.stringify({ type, ...v })); for (const k of missing) c.check(s.properties[k].default !== undefined, "no default", () => `${type}: "${k}" may be omitted, what it means then is not documented`);
  const b = behaviour(full); c.step(2); c.check(!!b, "default refused", () => `the engine refuses ${JSON.stringify(full)}`); const a = behaviour({ type, ...v }, [b!.way])!; c.outcome(a.text); c.state(JSON.stringify(v) + type);
  c.check(a.text === b!.text, "default", () => `${JSON.stringify({ type, ...v })} answers\n${a.text}\nwith the documented default written out, ${JSON.stringify(full)}, it answers\n${b!.text}`);
}
async function all(c: Ctx) { const have = Object.entries(client as any).filter(([, x]: any) => typeof x === "function" && x.prototype instanceof (client as any).Operator).map(([n]) => n).sort(), want = docs.map(typeOf).sort(); c.check(canon(have) === canon(want), "classes", () => `classes ${have}\n  documented ${want}`); c.step(); c.state(have.join()); c.log(() => have.join()); }
// whole programs: what the documentation allows, the client allows
async function programs(c: Ctx) {
  const d: any = { apiVersion: "v1", entryOperator: "in", operators: [{ type: "Input", id: "in", numPorts: 120 }, { type: "Join", id: "a:b", numPorts: 120 }], connections: [] }; let ok = true; const say: string[] = [];
  const member = (o: any, k: string, good: any[], bad: any[]) => { const x = c.choose(1 + good.length + (ok ? bad.length : 0)); if (!x) return; o[k] = x <= good.length ? good[x - 1] : bad[x - 1 - good.length]; if (x > good.length) ok = false; };
  if (c.flip()) { for (const k of ["title", "description", "author", "license"]) member(d, k, ["", "a title, longer than most of them: " + "x".repeat(300)], [3]); member(d, "date", ["2024-02-28"], []); member(d, "apiVersion", [], ["v2", 1]); }
  else { const e: any = {}; member(e, "from", ["in", "x y", ""], [3, null]); member(e, "to", ["a:b", "operator-with-a-long-name"], [3, {}]); ok &&= "from" in e && "to" in e; member(e, "fromPort", ["o1", "o12", "o120"], [1]); member(e, "toPort", ["i2", "i12", "i120", "c100"], [1]); if (c.flip()) { e.port = "i1"; ok = false; } const e0 = { from: "in", to: "a:b" }; d.connections = [[e], [e0, e], [e, e0]][c.choose(3)]; }
  const text = JSON.stringify(d); c.log(() => text); let err = ""; try { client.Program.checkValid(text); } catch (x: any) { err = String(x?.message ?? x) || "error"; } c.step(2); const v = JSON.parse(call("validate", text)).valid; c.state(text); c.outcome(String(ok));
  c.check(v === ok, "engine", () => `${text}\n  the engine's validation answers ${v}`); c.check((err === "") === ok, ok ? "program refused" : "program not refused", () => `${text}\n  ${err ? "is refused: " + err : "is accepted"}`);
}
const m = new Main("C38");
m.bounds = "every documented operator and all combinations of valid values (2-3 per parameter, optional ones also omitted) with at most one missing or refused value out of up to 12 per parameter (two thorough): generated class, generated program schema, engine; every omitted parameter against its documented default over 8 rows; programs with every descriptive member and connection member present, absent or (one of them) refused";
m.assumptions = ["json-schema-to-zod, json-schema-to-typescript, prettier, class-transformer are not installed: stand-ins cover what the operator pages use", "finite numbers only"];
m.add("classes", (c) => classes(c, 1)); m.add("whole programs", programs); m.add("omitted parameters", omitted); m.add("one class per operator", all); m.add("classes, two faults", (c) => classes(c, 2), true);
m.main();
