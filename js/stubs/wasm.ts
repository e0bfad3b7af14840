// Stand-in for @rtbot-dev/wasm: hands out whatever engine the harness has put in place.
export interface RtBotEmbindModule { [f: string]: (...args: any[]) => any; }
export const slot: { load: () => Promise<RtBotEmbindModule> } = { load: () => Promise.reject(new Error("no engine")) };
export default function bindings(): Promise<RtBotEmbindModule> { return slot.load(); }
