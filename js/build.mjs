// node build.mjs REPO OUT CACHE: bundles the generator, generates the operator classes, bundles the harnesses.
import { createRequire } from "module";
import fs from "fs"; import path from "path"; import { execFileSync } from "child_process"; import { fileURLToPath } from "url";
const nm = "/opt/veriftools/node/node_modules", here = path.dirname(fileURLToPath(import.meta.url)), [repo, out, harness] = process.argv.slice(2);
const esbuild = createRequire(nm + "/x.js")("esbuild"), stub = (n) => `${here}/stubs/${n}.ts`;
const common = { bundle: true, platform: "node", format: "cjs", nodePaths: [nm], logLevel: "error", tsconfigRaw: { compilerOptions: { experimentalDecorators: true } } };
fs.mkdirSync(out + "/gen/src", { recursive: true }); fs.rmSync(out + "/gen/templates", { force: true }); fs.symlinkSync(repo + "/tools/generator/templates", out + "/gen/templates");
esbuild.buildSync({ ...common, entryPoints: [repo + "/tools/generator/src/index.ts"], outfile: out + "/gen/src/index.js",
  alias: { "json-schema-to-zod": stub("json-schema-to-zod"), "json-schema-to-typescript": stub("json-schema-to-typescript"), prettier: stub("prettier"), yaml: stub("yaml") } });
const md = ["core", "std"].flatMap((l) => fs.readdirSync(`${repo}/libs/${l}/include`, { recursive: true }).filter((f) => f.endsWith(".md")).map((f) => `${repo}/libs/${l}/include/${f}`)).sort();
// 3: what the generator does, or what it makes, cannot be used at all
function carryOut(f, what) { try { f(); } catch (e) { console.error(what + ": " + String(e.message).slice(0, 300)); process.exit(3); } }
function generate(targets, to, sources, cwd) { for (const target of targets) { fs.mkdirSync(`${to}/${target}`, { recursive: true }); carryOut(() => execFileSync(process.execPath, [out + "/gen/src/index.js", "--output", `${to}/${target}`, "--target", target, "--sources", sources.join(" ")], { cwd, stdio: ["ignore", "ignore", "inherit"], env: { ...process.env, NODE_PATH: nm } }), `the generator does not write its ${target} target`); } }
generate(["typescript", "python", "cpp", "jsonschema"], out, md);
const documents = harness && path.basename(harness) === "C43.ts";
if (documents) {
  const { pages, text } = await import("./pages.mjs"), list = pages(), d = out + "/made";
  fs.mkdirSync(d + "/pages", { recursive: true }); for (const p of list) fs.writeFileSync(`${d}/pages/${p.name}.md`, text(p));
  generate(["markdown"], out, md); generate(["markdown", "typescript", "python"], d, list.map((p) => p.name + ".md"), d + "/pages");
  fs.writeFileSync(d + "/pages.json", JSON.stringify(list.map((p) => ({ ...p, source: text(p) }))));
  fs.writeFileSync(out + "/sources.json", JSON.stringify(md.map((f) => ({ name: path.basename(f, ".md"), source: fs.readFileSync(f, "utf8") }))));
}
if (harness) {
  const src = repo + "/libs/wrappers/javascript/src";
  const redirect = { name: "redirect", setup(b) {
    b.onResolve({ filter: /^\.\/generated$/ }, () => ({ path: `${out}/typescript/index.ts` }));
    b.onResolve({ filter: /^\.\/program$/ }, (a) => (a.importer.startsWith(out) ? { path: src + "/program.ts" } : undefined)); } };
  const made = (e) => e.errors?.length && e.errors.every((x) => x.location && path.resolve(x.location.file).startsWith(path.resolve(out) + "/"));
  await esbuild.build({ ...common, entryPoints: [harness], outfile: `${out}/${path.basename(harness, ".ts")}.js`, plugins: [redirect], alias: { ...(documents ? { "@made": out + "/made/typescript/index.ts" } : {}), "@rtbot-dev/wasm": stub("wasm"), "class-transformer": stub("class-transformer"), "@client": src + "/index.ts", "@rtbot-dev/rtbot": src + "/index.ts", "@cli": repo + "/apps/cli/src", "zustand/vanilla": stub("zustand"), immer: stub("immer"), blessed: stub("blessed"), papaparse: stub("papaparse"), commander: stub("commander") } }).catch((e) => { if (!made(e)) throw e; console.error("the generated classes are not TypeScript: " + String(e.message).slice(0, 600)); process.exit(3); });
}
