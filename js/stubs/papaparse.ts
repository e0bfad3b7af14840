// Stand-in for papaparse: comma separated text to rows of text.
function rows(t: string): string[][] { const out: string[][] = []; for (const l of t.split(/\r\n|\n|\r/)) out.push(l.split(",")); return out; }
const Papa = { parse(t: string, c: any = {}) { const r = { data: t === "" ? [] : rows(t), errors: [], meta: {} }; if (c.skipEmptyLines) r.data = r.data.filter((x) => x.join("") !== ""); if (c.complete) { Promise.resolve().then(() => c.complete(r)); return undefined; } return r; } };
export default Papa; export const parse = Papa.parse; export type ParseResult<T> = any;
