// Stand-in for immer: the recipe works on a copy, and the result is frozen.
function copy(o: any): any { return Array.isArray(o) ? o.map(copy) : o !== null && typeof o === "object" ? Object.fromEntries(Object.entries(o).map(([k, v]) => [k, copy(v)])) : o; }
function freeze(o: any): any { if (o !== null && typeof o === "object" && !Object.isFrozen(o)) { Object.freeze(o); Object.values(o).forEach(freeze); } return o; }
export function produce(base: any, recipe?: any): any { if (typeof base === "function") return (b: any, ...a: any[]) => produce(b, (d: any) => base(d, ...a)); const d = copy(base), r = recipe(d); return freeze(r === undefined ? d : r); }
