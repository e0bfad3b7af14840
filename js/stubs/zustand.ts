// Stand-in for zustand/vanilla.
const stores: (() => void)[] = [];
/** every store as it was created, nobody subscribed */
export function resetStores() { stores.forEach((f) => f()); }
export function createStore<T = any>(init?: any): any {
  if (!init) return (i: any) => createStore(i);
  let state: any; const ls = new Set<any>();
  const setState = (p: any, replace?: boolean) => { const n = typeof p === "function" ? p(state) : p; if (!Object.is(n, state)) { const prev = state; state = replace || typeof n !== "object" || n === null ? n : Object.assign({}, state, n); ls.forEach((l) => l(state, prev)); } };
  const api = { setState, getState: () => state, getInitialState: () => initial, subscribe: (l: any) => { ls.add(l); return () => ls.delete(l); }, destroy: () => ls.clear() };
  const initial = (state = init(setState, api.getState, api)); stores.push(() => { ls.clear(); state = initial; });
  return api;
}
