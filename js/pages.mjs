// Documentation pages that are not in the repository: every one, two (and a few three) parameters out of the kinds below, required or not.
const num = { type: "number" };
export const kinds = [
  { type: "integer" }, { type: "integer", minimum: 0 }, { type: "integer", minimum: 5 }, { type: "integer", minimum: 2, default: 2 }, { type: "integer", default: 0 }, { type: "integer", examples: [20, 30] },
  num, { type: "number", examples: [1.5] }, { type: "number", default: 0.25 }, { type: "number", minimum: -1, default: 0 }, { type: "number", examples: [0] }, { type: "number", examples: [-2.5e-7] },
  { type: "string" }, { type: "string", examples: ["abc", "d"] }, { type: "string", examples: ["1.0"] }, { type: "string", examples: ["true"] }, { type: "string", examples: ["a: b"] }, { type: "string", enum: ["linear", "hermite"] }, { type: "string", enum: ["x", "y"], default: "y" },
  { type: "array", items: num, minItems: 1, examples: [[1.1, 0.9]] }, { type: "array", items: num, minItems: 2 }, { type: "array", items: num, examples: [[1, 0, -1], [2]] }, { type: "array", minItems: 2, items: { type: "array", minItems: 2, maxItems: 2, items: num }, examples: [[[0, 0], [1, 2]]] },
];
const names = ["n", "n2", "dt"], about = ["The window size", "A parameter, which n2 follows", "The step"];
export function pages() {
  const out = [], make = (ks) => {
    const properties = { id: { type: "string", description: "The id of the operator" } }, required = ["id"]; let name = "P";
    ks.forEach(([k, opt], i) => { name += (opt ? "O" : "R") + k; properties[names[i]] = { ...kinds[k], description: about[i] }; if (!opt) required.push(names[i]); });
    out.push({ name, schema: { type: "object", properties, required } });
  };
  // a parameter that may be left out follows those that may not, and says what it is then
  const all = kinds.flatMap((k, i) => ("default" in k ? [[i, false], [i, true]] : [[i, false]])), order = (ks) => ks.every((x, i) => !i || !ks[i - 1][1] || x[1]);
  make([]); for (const a of all) { make([a]); for (const b of all) { if (order([a, b])) make([a, b]); for (const c of [all[1], all[5], all[22], all[24]]) if (c && order([a, b, c])) make([a, b, c]); } }
  return out;
}
export const text = (p) => `---\nbehavior:\n  buffered: false\njsonschema: ${JSON.stringify(p.schema)}\n---\n\n# ${p.name}\n\nInputs: \`i1\`\n\nWhat it does.\n`;
