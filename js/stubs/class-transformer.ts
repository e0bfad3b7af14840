// Stand-in for class-transformer: the three names the client uses.
const hidden = new Map<object, Set<string>>();
export function Exclude() { return (target: object, key: string) => { if (!hidden.has(target)) hidden.set(target, new Set()); hidden.get(target)!.add(key); }; }
function isHidden(o: any, k: string) { for (let p = Object.getPrototypeOf(o); p; p = Object.getPrototypeOf(p)) if (hidden.get(p)?.has(k)) return true; return false; }
export function instanceToPlain(o: any): any {
  if (Array.isArray(o)) return o.map(instanceToPlain);
  if (o instanceof Date) return new Date(o.valueOf());
  if (o !== null && typeof o === "object") return Object.fromEntries(Object.keys(o).filter((k) => !isHidden(o, k) && typeof o[k] !== "function").map((k) => [k, instanceToPlain(o[k])]));
  return o;
}
export function plainToInstance<T>(cls: new (...a: any[]) => T, plain: any): T {
  const r: any = new cls(), copy = instanceToPlain(plain);
  for (const k of Object.keys(copy)) if (!isHidden(r, k)) r[k] = copy[k];
  return r;
}
