// Stand-in for blessed: remembers the widgets that were made, so that the harness can press keys and read the table.
export const made: { screens: any[]; tables: any[]; boxes: any[]; checkboxes: any[] } = { screens: [], tables: [], boxes: [], checkboxes: [] };
export function forget() { made.screens = []; made.tables = []; made.boxes = []; made.checkboxes = []; }
function node(opts: any): any {
  const on: Record<string, any[]> = {}, keys: Record<string, any[]> = {};
  return { options: opts ?? {}, children: [] as any[], append() {}, remove() {}, destroy() {}, render() {}, log() {}, focus() {}, setContent() {}, detach() {}, hide() {}, show() {},
    on(e: string, f: any) { (on[e] ??= []).push(f); }, emit(e: string, ...a: any[]) { (on[e] ?? []).forEach((f) => f(...a)); },
    key(ks: any, f: any) { [ks].flat().forEach((k) => (keys[k] ??= []).push(f)); }, press(k: string) { (keys[k] ?? []).forEach((f) => f(k, { name: k })); } };
}
export const screen = (o: any) => { const n = node(o); made.screens.push(n); return n; };
export const box = (o: any) => { const n = node(o); made.boxes.push(n); return n; };
export const form = (o: any) => node(o);
export const text = (o: any) => node(o);
export const checkbox = (o: any) => { const n = node(o); n.checked = !!o.checked; n.check = () => { n.checked = true; n.emit("check"); }; n.uncheck = () => { n.checked = false; n.emit("uncheck"); }; made.checkboxes.push(n); return n; };
const tables = (o: any) => { const n = node(o); n.rows = undefined; n.setData = n.setRows = (r: any) => { n.rows = r; }; made.tables.push(n); return n; };
export const listtable = tables; export const table = tables;
