// Stand-in for json-schema-to-typescript: one interface, one line per property.
export async function compile(s: any, name: string): Promise<string> {
  const ty = (p: any): string => (p.enum ? p.enum.map((x: any) => JSON.stringify(x)).join(" | ") : p.type === "array" ? ty(p.items) + "[]" : p.type === "integer" ? "number" : p.type);
  const lines = Object.keys(s.properties).flatMap((k) => { const p = s.properties[k]; return [...(p.description ? ["  /**", "   * " + p.description, "   */"] : []), `  ${k}${s.required.includes(k) ? "" : "?"}: ${ty(p)};`]; });
  return `/* eslint-disable */\n\nexport interface ${name} {\n${lines.join("\n")}\n  [k: string]: unknown;\n}\n`;
}
