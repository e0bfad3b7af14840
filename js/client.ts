import { RtBot } from "@client";
import { slot, RtBotEmbindModule } from "@rtbot-dev/wasm";
const loaded = Object.getOwnPropertyDescriptors(RtBot) as Record<string, PropertyDescriptor>;
/** the client as it was loaded: whatever the class has remembered since is gone */
export function freshClient() {
  for (const k of Object.getOwnPropertyNames(RtBot)) if (!(k in loaded)) delete (RtBot as any)[k];
  for (const [k, d] of Object.entries(loaded)) if (d.configurable) Object.defineProperty(RtBot, k, d);
}
let current: any;
const forward = new Proxy({}, { get: (_, k) => (k === "then" ? undefined : current[k]), has: (_, k) => k in current, ownKeys: () => Reflect.ownKeys(current), getOwnPropertyDescriptor: (_, k) => ({ configurable: true, enumerable: true, value: current[k] }) }) as RtBotEmbindModule;
/** a client that has not loaded its engine yet, which is the one given; so is the engine of a client that cannot be made to forget */
export function clientOf(m: RtBotEmbindModule) { freshClient(); current = m; slot.load = () => Promise.resolve(forward); }
