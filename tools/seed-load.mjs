// Loads TypeScript modules of /repo (bundled with its esbuild); packages that are not installed are replaced by `doubles` or inert objects.
import { createRequire, builtinModules } from "node:module";
import { existsSync } from "node:fs";
import { join, dirname } from "node:path";
const PK = "/repo/packages", req = createRequire("/repo/package.json"), node = createRequire(import.meta.url);
const esbuild = req("esbuild");
const inert = () => new Proxy(function () {}, { get: (t, k) => (k === "then" ? undefined : k === "__esModule" ? true : k === Symbol.toPrimitive ? () => "" : k === "prototype" ? t.prototype : inert()), apply: () => inert(), construct: () => inert() });
export const load = async (files, doubles = {}) => {
  const list = [files].flat();
  const out = await esbuild.build({
    stdin: { contents: list.map((f) => `export * from ${JSON.stringify(join(PK, f))};`).join("\n"), resolveDir: PK, loader: "ts" },
    bundle: true, write: false, platform: "node", format: "cjs", target: "node22", logLevel: "silent", tsconfigRaw: "{}", loader: { ".md": "text", ".txt": "text" },
    plugins: [{ name: "own", setup(b) { b.onResolve({ filter: /.*/ }, (a) => {
      if (a.kind === "entry-point") return;
      let base;
      if (/^[./]/.test(a.path)) base = a.path.startsWith("/") ? a.path : join(a.importer.startsWith("/") ? dirname(a.importer) : a.resolveDir, a.path);
      else { const m = /^@alwaysmeticulous\/([^/]+)(?:\/(.*))?$/.exec(a.path); if (!m || a.path in doubles) return { path: a.path, external: true }; base = join(PK, m[1], "src", (m[2] ?? "index").replace(/^dist\//, "")); }
      for (const c of [base, base.replace(/\.js$/, ".ts"), `${base}.ts`, `${base}/index.ts`, `${base}.tsx`, `${base}.json`, `${base}.d.ts`]) if (/\.[a-z]+$/.test(c) && existsSync(c)) return { path: c };
      return { path: a.path, external: true };
    }); } }],
  });
  const module = { exports: {} };
  new Function("exports", "require", "module", "__dirname", out.outputFiles[0].text)(module.exports, (n) => {
    if (n in doubles) return doubles[n];
    if (builtinModules.includes(n.replace(/^node:/, ""))) return node(n);
    if (n === "loglevel") { const l = { getLevel: () => 5, levels: {} }; for (const k of ["trace", "debug", "info", "log", "warn", "error", "setLevel", "setDefaultLevel"]) l[k] = () => {}; l.getLogger = () => l; return { __esModule: true, default: l, ...l }; }
    try { return req(n); } catch { return inert(); }
  }, module, PK);
  return module.exports;
};
export const check = (ok, what) => { if (!ok) { console.error("BROKEN: " + what); process.exit(1); } };
