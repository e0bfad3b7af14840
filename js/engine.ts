import { slot, RtBotEmbindModule } from "@rtbot-dev/wasm";
const addon = { exports: {} as any }; (process as any).dlopen(addon, process.env.RT_ENGINE!);
export const functions = ["validate", "validateOperator", "createProgram", "deleteProgram", "addToMessageBuffer", "processMessageBuffer", "processMessageBufferDebug", "getProgramEntryOperatorId", "getProgramEntryPorts", "getProgramOutputFilter", "processBatch", "processBatchDebug"];
export function call(...a: any[]): string { const r = JSON.parse(addon.exports.call(JSON.stringify(a))); if ("error" in r) throw new Error(r.error); return r.ok; }
export type Call = { f: string; args: any[]; result?: any; error?: string };
// the real engine behind the interface of the wasm module; every call is recorded
export function recorded(calls: Call[], override: (f: string, args: any[]) => any = () => undefined): RtBotEmbindModule {
  return Object.fromEntries(functions.map((f) => [f, (...args: any[]) => {
    const c: Call = { f, args }; calls.push(c);
    try { const o = override(f, args); return (c.result = o !== undefined ? o : call("." + f, ...args)); } catch (e: any) { c.error = e.message; throw e; } }]));
}
export { slot };
