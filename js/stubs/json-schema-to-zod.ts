// Stand-in for json-schema-to-zod: the keywords the operator pages use.
export function parseSchema(s: any): string {
  let r: string;
  if (s.type === "array" && Array.isArray(s.items)) return `z.tuple([${s.items.map(parseSchema).join(",")}])`;
  if (s.enum) r = `z.enum(${JSON.stringify(s.enum)})`;
  else if (s.type === "object") r = `z.object({ ${Object.keys(s.properties).map((k) => { const p = s.properties[k], q = parseSchema(p); return `${JSON.stringify(k)}: ${q}${(s.required ?? []).includes(k) || "default" in p ? "" : ".optional()"}`; }).join(", ")} })`;
  else if (s.type === "array") r = `z.array(${parseSchema(s.items)})${"minItems" in s ? `.min(${s.minItems})` : ""}${"maxItems" in s ? `.max(${s.maxItems})` : ""}`;
  else if (s.type === "integer" || s.type === "number") r = `z.number()${s.type === "integer" ? ".int()" : ""}${"minimum" in s ? `.gte(${s.minimum})` : ""}${"maximum" in s ? `.lte(${s.maximum})` : ""}`;
  else if (s.type === "boolean" || s.type === "string") r = `z.${s.type}()`;
  else throw new Error("schema not supported by the stand-in: " + JSON.stringify(s));
  if (s.description) r += `.describe(${JSON.stringify(s.description)})`;
  if ("default" in s) r += `.default(${JSON.stringify(s.default)})`;
  return r;
}
