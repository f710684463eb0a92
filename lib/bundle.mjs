// Bundles TypeScript sources of /repo's current working tree with esbuild, leaving third-party packages
// as require() calls that a test double answers (most third-party packages are not installed here).
import { createRequire } from "node:module";
import { existsSync, readFileSync } from "node:fs";
import { join, dirname } from "node:path";
import vm from "node:vm";

export const REPO = process.env.VERIF_REPO ?? "/repo";
export const VERIF_DIR = new URL("../", import.meta.url).pathname;
const req = createRequire(join(REPO, "package.json"));
const esbuild = req("esbuild");

function resolveOwn(spec) {
  const m = /^@alwaysmeticulous\/([^/]+)(\/.*)?$/.exec(spec);
  if (!m) return undefined;
  const dir = join(REPO, "packages", m[1]);
  if (!existsSync(dir)) return undefined;
  if (!m[2]) {
    for (const c of ["src/index.ts", "src/index.tsx"]) if (existsSync(join(dir, c))) return join(dir, c);
    return undefined;
  }
  const sub = m[2].slice(1);
  try {
    const pkg = JSON.parse(readFileSync(join(dir, "package.json"), "utf8"));
    let e = pkg.exports?.["./" + sub];
    while (e && typeof e === "object") e = e.source ?? e.import ?? e.default ?? e.require ?? Object.values(e)[0];
    if (typeof e === "string") {
      const src = e.replace(/^\.\//, "").replace(/^dist\//, "src/").replace(/\.(d\.)?[mc]?[jt]s$/, "");
      for (const c of [`${src}.ts`, `${src}/index.ts`, `${src}.tsx`]) if (existsSync(join(dir, c))) return join(dir, c);
    }
  } catch {}
  const s = sub.replace(/^dist\//, "").replace(/^src\//, "").replace(/\.js$/, "");
  for (const c of [`src/${s}.ts`, `src/${s}/index.ts`, `${s}.ts`, `src/${sub.replace(/^dist\/(src\/)?/, "")}.ts`]) if (existsSync(join(dir, c))) return join(dir, c);
  return undefined;
}

const cache = new Map();
/** entry: path relative to /repo/packages, or {name: path}. Returns an instantiate(doubles, globals) function. */
export async function bundle(entry, { overrides = {}, externalOwn = [] } = {}) {
  const key = JSON.stringify([entry, overrides, externalOwn]);
  if (cache.has(key)) return cache.get(key);
  const entries = typeof entry === "string" ? { "": entry } : entry;
  const stdin = Object.entries(entries).map(([n, p]) => {
    const f = JSON.stringify(join(REPO, "packages", p));
    return `export * as ${n === "" ? "__main" : n} from ${f};`;
  }).join("\n");
  const res = await esbuild.build({
    stdin: { contents: stdin, resolveDir: join(REPO, "packages"), loader: "ts" },
    bundle: true, write: false, platform: "node", format: "cjs", target: "node22", logLevel: "silent",
    sourcemap: false, minify: false, keepNames: false, metafile: true, define: { "import.meta.url": '"file:///verif-bundle.js"' },
    loader: { ".md": "text", ".txt": "text", ".html": "text", ".node": "empty" },
    tsconfigRaw: "{}",
    plugins: [{
      name: "verif",
      setup(b) {
        b.onResolve({ filter: /.*/ }, (a) => {
          if (a.kind === "entry-point") return undefined;
          const spec = a.path;
          if (spec in overrides) return { path: overrides[spec] };
          if (spec.startsWith("@repo/")) { const f = join(REPO, "packages", spec.slice(6)); for (const c of [f, `${f}.ts`, `${f}/index.ts`]) if (existsSync(c) && /\.ts$/.test(c)) return { path: c }; }
          if (spec.startsWith(".") || spec.startsWith("/")) {
            const base = spec.startsWith("/") ? spec : join(dirname(a.importer && existsSync(a.importer) ? a.importer : join(a.resolveDir, "x")), spec);
            for (const c of [base, base.replace(/\.js$/, ".ts"), base.replace(/\.mjs$/, ".mts"), `${base}.ts`, `${base}.tsx`, `${base}/index.ts`, `${base}.js`, `${base}.json`, `${base}.mts`, `${base}.d.ts`]) {
              if (existsSync(c) && /\.[a-z]+$/.test(c.split("/").pop())) {
                for (const [suffix, target] of Object.entries(overrides)) if (suffix.startsWith("file:") && c.endsWith(suffix.slice(5))) return { path: target };
                return { path: c };
              }
            }
            return { path: `@@missing:${base}`, external: true };
          }
          if (!externalOwn.includes(spec)) {
            const own = resolveOwn(spec);
            if (own) return { path: own };
          }
          return { path: spec, external: true };
        });
      },
    }],
  });
  const code = res.outputFiles[0].text;
  const inputs = Object.keys(res.metafile.inputs).filter((i) => i.includes("packages/"));
  const script = new vm.Script(`(function (exports, require, module, __filename, __dirname, process) {${code}\n})`, { filename: `bundle:${JSON.stringify(entry)}` });
  const inst = (doubles = {}, { dirname: dir = "/", process: proc = process } = {}) => {
    const fn = script.runInThisContext();
    const module = { exports: {} };
    fn(module.exports, makeRequire(doubles), module, "/verif-bundle.js", dir, proc);
    return module.exports.__main ?? module.exports;
  };
  inst.inputs = inputs;
  inst.code = code;
  cache.set(key, inst);
  return inst;
}

const nodeReq = createRequire(import.meta.url);
const builtins = new Set(nodeReq("node:module").builtinModules);
/** Anything not provided becomes an inert object on which every access and call works. */
export function inert(name) {
  const f = function () {};
  const p = new Proxy(f, {
    get: (t, k) => {
      if (k === "__esModule") return true;
      if (k === Symbol.toPrimitive) return () => `[inert ${name}]`;
      if (k === "then") return undefined;
      if (k === "prototype") return t.prototype;
      return inert(`${name}.${String(k)}`);
    },
    apply: () => inert(`${name}()`),
    construct: () => inert(`new ${name}`),
  });
  return p;
}
const quietLogger = () => {
  const l = {};
  for (const k of ["trace", "debug", "info", "log", "warn", "error", "setLevel", "setDefaultLevel", "enableAll", "disableAll", "resetLevel"]) l[k] = () => {};
  l.getLevel = () => 5; l.levels = { TRACE: 0, DEBUG: 1, INFO: 2, WARN: 3, ERROR: 4, SILENT: 5 };
  l.methodFactory = () => () => {};
  l.getLogger = () => l;
  return l;
};
function makeRequire(doubles) {
  const made = new Map();
  return (name) => {
    const bare = name.replace(/^node:/, "");
    if (name in doubles) return doubles[name];
    if (bare in doubles) return doubles[bare];
    if (builtins.has(bare)) return nodeReq(name);
    if (made.has(name)) return made.get(name);
    let v;
    if (name === "loglevel") { const l = quietLogger(); v = { __esModule: true, default: l, ...l }; }
    else if (name === "loglevel-plugin-prefix") v = { __esModule: true, default: { reg() {}, apply() {} } };
    else if (name === "chalk") {
      const id = (s) => String(s);
      const c = new Proxy(id, { get: (t, k) => (k === "__esModule" ? undefined : c) });
      v = { __esModule: true, default: c };
    } else if (name === "@sentry/node" || name === "@alwaysmeticulous/sentry") {
      const span = { setAttribute() {}, setStatus() {}, end() {}, finish() {}, startChild() { return span; }, setData() {}, setTag() {} };
      v = { __esModule: true, startSpan: (_o, f) => f(span), captureException() {}, captureMessage() {}, init() {}, flush: async () => true, close: async () => true,
        getCurrentScope: () => ({ setTag() {}, setContext() {} }), setTag() {}, setContext() {}, getClient: () => undefined, withScope: (f) => f({ setTag() {}, setExtra() {} }), startTransaction: () => span };
    } else {
      try { v = nodeReq(req.resolve(name)); } catch { v = inert(name); }
    }
    made.set(name, v);
    return v;
  };
}
