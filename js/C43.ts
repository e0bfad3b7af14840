import * as fs from "fs";
import { load } from "js-yaml";
import { Ctx, Main } from "./mc";
import * as client from "@client";
import * as made from "@made";
import { call } from "./engine";
// Every operator page as the site shows it: its parameters, and its examples carried out.
const d = process.env.RT_PAGES!, read = (f: string) => fs.readFileSync(d + f, "utf8"), docs: any[] = JSON.parse(fs.readFileSync(process.env.RT_DOCS!, "utf8"));
type Page = { name: string; schema: any; source: string; shown: string | undefined; classes: any };
const shown = (f: string) => (fs.existsSync(d + f) ? read(f) : undefined), sources: any[] = JSON.parse(read("/sources.json"));
const here: Page[] = docs.map((s) => { const name = s.properties.type.enum[0]; return { name, schema: { ...s, properties: Object.fromEntries(Object.entries(s.properties).filter(([k]) => k !== "type")), required: s.required.filter((k: string) => k !== "type") }, source: sources.find((x) => x.name === name).source, shown: shown(`/markdown/${name}.mdx`), classes: client }; });
const others: Page[] = JSON.parse(read("/made/pages.json")).map((p: any) => ({ ...p, shown: shown(`/made/markdown/${p.name}.mdx`), classes: made }));
const plain = (s: string) => s.replace(/&(quot|#x27|#x60|#x3D|lt|gt|amp);/g, (_, k) => (({ quot: '"', "#x27": "'", "#x60": "`", "#x3D": "=", lt: "<", gt: ">", amp: "&" }) as any)[k]);
/** what a value lacks to be one the schema allows */
export function wrong(s: any, v: any): string {
  if (s.enum && !s.enum.includes(v)) return `${JSON.stringify(v)} is not one of ${s.enum}`;
  if (s.type === "array") { if (!Array.isArray(v) || v.length < (s.minItems ?? 0) || v.length > (s.maxItems ?? Infinity)) return `${JSON.stringify(v)} is not such a list`; return v.map((x) => wrong(s.items, x)).find((x) => x) ?? ""; }
  if (s.type === "object") { const lack = s.required.find((k: string) => !(k in v)); if (lack) return lack + " is missing"; return Object.keys(s.properties).filter((k) => k in v).map((k) => wrong(s.properties[k], v[k])).find((x) => x) ?? ""; }
  if (s.type === "integer" || s.type === "number") { if (typeof v !== "number" || (s.type === "integer" && !Number.isInteger(v)) || v < (s.minimum ?? -Infinity)) return `${JSON.stringify(v)} is not such a number`; return ""; }
  return typeof v === s.type ? "" : `${JSON.stringify(v)} is not a ${s.type}`;
}
const canon = (o: any): string => JSON.stringify(o, (_, v) => (v && typeof v === "object" && !Array.isArray(v) ? Object.fromEntries(Object.entries(v).sort(([a], [b]) => (a < b ? -1 : 1))) : v));
async function page(c: Ctx, list: Page[]) {
  const p = c.pick(list), what = c.choose(5); c.log(() => `${p.name}, ${["parameters", "JSON", "YAML", "TypeScript", "Text"][what]}\n${p.shown}`); c.step();
  c.check(p.shown !== undefined, "no page", () => `${p.name}: there is no page`); const s = p.shown!, props = Object.entries<any>(p.schema.properties), blocks = (l: string) => [...s.slice(s.lastIndexOf("## Usage")).matchAll(new RegExp("```" + l + "\\n([^]*?)```", "g"))].map((m) => m[1]);
  const block = (l: string) => { const b = blocks(l); c.check(b.length === 1, "examples", () => `${p.name}: ${b.length} examples in ${l}`); return b[0]; };
  const carried = <T>(l: string, f: () => T): T => { try { return f(); } catch (e: any) { return c.fail("example fails", `${p.name}: the ${l} example fails: ${e?.message ?? e}\n${block(l)}`); } };
  const json = carried("json", () => JSON.parse(block("json")).operators), want = json[0]; c.state(p.name + what); c.outcome(canon(json));
  if (what === 0) {
    const from = s.lastIndexOf("## Parameters"), lines = s.slice(from, s.indexOf("## Usage", from)).split("\n").slice(1).map((x) => plain(x.trim())).filter((x) => x);
    const expected = props.flatMap(([k, q]) => [`_${k}_: ${q.description ?? ""}`.trim(), ...("default" in q ? [`Default value: ${q.default}.`] : []), ...("minimum" in q ? [`Minimum value: ${q.minimum}.`] : [])]);
    c.check(JSON.stringify(lines) === JSON.stringify(expected), "parameters", () => `${p.name}: the page says\n  ${lines.join("\n  ")}\n  documented\n  ${expected.join("\n  ")}`);
  } else if (what === 1) {
    c.check(json.length === 1 && want.type === p.name, "operator", () => `${p.name}: the JSON example describes ${JSON.stringify(json)}`); c.check(canon(Object.keys(want).filter((k) => k !== "type").sort()) === canon(props.map(([k]) => k).sort()), "parameters of the example", () => `${p.name}: the JSON example has ${Object.keys(want)}`);
    const w = wrong(p.schema, want); c.check(!w, "not allowed", () => `${p.name}: the JSON example is not allowed: ${w}\n  ${JSON.stringify(want)}`);
    for (const [k, q] of props) if (q.examples && k !== "id") c.check(canon(want[k]) === canon(q.examples[0]), "documented example", () => `${p.name}: ${k} is ${JSON.stringify(want[k])} in the example, documented is ${JSON.stringify(q.examples[0])}`);
    if (p.classes === client) { const v = JSON.parse(call("validateOperator", p.name, JSON.stringify(want))); c.check(v.valid, "engine", () => `${p.name}: the engine refuses the JSON example: ${v.error}`); }
  } else if (what === 2) { const y = carried("yaml", () => (load(block("yaml")) as any).operators); c.check(canon(y) === canon(json), "YAML", () => `${p.name}: the YAML example describes ${JSON.stringify(y)}, the JSON one ${JSON.stringify(json)}`); }
  else if (what === 3) {
    const b = block("js"), imports = /import\s*\{([^}]*)\}\s*from "@rtbot-dev\/rtbot";?/.exec(b); c.check(!!imports, "imports", () => `${p.name}: the TypeScript example does not import the package`);
    const names = imports![1].split(",").map((x) => x.trim()).filter((x) => x), values = names.map((n) => (n === "Program" ? client.Program : p.classes[n])); for (const [i, v] of values.entries()) c.check(typeof v === "function", "imports", () => `${p.name}: the TypeScript example imports ${names[i]}, which does not exist`);
    const program = carried("js", () => new Function(...names, b.replace(imports![0], "") + "\nreturn program;")(...values)); const got = JSON.parse(JSON.stringify(program)).operators;
    c.check(canon(got) === canon(json), "TypeScript", () => `${p.name}: the TypeScript example makes ${JSON.stringify(got)}, the JSON one ${JSON.stringify(json)}`);
  } else c.check(s.startsWith(p.source.trimEnd()), "text", () => `${p.name}: the page does not begin with what is documented:\n${s.slice(0, 600)}`);
}
const m = new Main("C43");
m.bounds = `every operator page of the repository (${here.length}) and ${others.length} made-up ones (EVERY combination of up to two parameters out of 23 kinds, required or with a default, and three with four kinds): the list of parameters, the JSON, YAML and TypeScript examples, the text`;
m.assumptions = ["json-schema-to-zod, json-schema-to-typescript, prettier and yaml are not installed: stand-ins cover what the pages use", "the C++ examples are fragments and are not carried out"];
m.add("pages", (c) => page(c, here)); m.add("other pages", (c) => page(c, others));
m.main();
