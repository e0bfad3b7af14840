// Stand-in for commander: keeps each command's arguments, options and action.
export const commands: Record<string, any> = {};
export class Command {
  args: string[] = []; opts: { long: string; value: boolean; def: any; short: string }[] = []; run: any;
  command(n: string) { const c = new Command(); commands[n] = c; return c; }
  name() { return this; } description() { return this; } version() { return this; } parse() { return this; } alias() { return this; } usage() { return this; } addHelpText() { return this; }
  argument(n: string) { this.args.push(n); return this; }
  option(f: string, _d?: string, def?: any, def2?: any) { if (typeof def === "function") def = def2; const long = /--([a-z0-9-]+)/i.exec(f)![1]; this.opts.push({ long, short: f.split(",")[0].trim(), value: /[<[]/.test(f), def }); return this; }
  requiredOption(f: string, d?: string, def?: any) { return this.option(f, d, def); }
  action(f: any) { this.run = f; return this; }
  /** runs the action as the command line would */
  invoke(args: string[], given: Record<string, any>) {
    const o: any = {}, camel = (s: string) => s.replace(/-(\w)/g, (_, c) => c.toUpperCase());
    for (const x of this.opts) { if (x.def !== undefined) o[camel(x.long)] = x.def; if (x.long in given) o[camel(x.long)] = given[x.long]; }
    for (const k of Object.keys(given)) if (!this.opts.some((x) => x.long === k)) throw new Error("unknown option " + k);
    return this.run(...this.args.map((_, i) => args[i]), o, this);
  }
}
