import { bundle } from "../lib/bundle.mjs";
const set = (...a) => `{${a.map((x) => (typeof x === "string" ? `"${x}"` : typeof x === "boolean" ? String(x).toUpperCase() : x)).join(", ")}}`;

const SRC = { default: "https://snippet.meticulous.ai/v1/meticulous.js", own: "https://own.example/x.js" };
const TOKEN = { plain: "tok", odd: `a"b'<c></script>&quot;$&$1$\``, other: "other", empty: "", number: 7, missing: undefined };
const TEXT = {
  doctype: "<!DOCTYPE html>\n", c_head: "<!-- the <head> follows -->\n", html: `<html lang="en">\n`, head: "<head>\n", headattrs: `<head\n  class="a" data-b='c'>\n`, HEAD: "<HEAD>", headgt: `<head data-x="a>b">`, headx: "<head-x></head-x>", "/head": "</head>\n<body><header>$& of $1</header>\n",
  own: `<script src="/app.js"></script>\n`, inline: "<script>var a = 1 < 2 && 3 > 2;</script>\n", title: "<title>a $& b</title>\n", manual: `<script data-recording-token="mine" src="${SRC.default}"></script>\n`,
  c_ph: "<!-- <script data-meticulous></script> -->\n", c_rec: `<!--\n<script data-recording-token="tok" data-is-production-environment="false" src="${SRC.default}"></script>\n-->\n`,
  ph: "<script data-meticulous></script>", phattrs: `<script id="p" data-meticulous="" async>\n</script>`, phself: `<script data-meticulous />`, PH: "<SCRIPT DATA-METICULOUS></SCRIPT>", phfull: "<script data-meticulous>window.x = 1;</script>",
  look1: `<script data-meticulous-recording src="/a.js"></script>`, look2: "<script x-data-meticulous></script>", look3: `<script src="/data-meticulous/x.js"></script>`, look4: `<div data-meticulous></div>`, look5: `<script-x data-meticulous></script-x>`, look6: `<script data-a="x data-meticulous y"></script>`,
};
/** what an HTML minifier does to attributes: quotes go where they are not needed */
const minified = (s) => s.replace(/<!--[\s\S]*?-->|<[^>]*>/g, (t) => (t.startsWith("<!--") ? t : t.replace(/="([^\s"'=<>`&]+)"/g, "=$1")));
const tight = (s) => s.replace(/>\s+(?=<)/g, ">");
const ENT = { "&quot;": '"', "&#39;": "'", "&#x27;": "'", "&apos;": "'", "&lt;": "<", "&gt;": ">", "&amp;": "&" };
const decode = (v) => v.replace(/&(quot|#39|#x27|apos|lt|gt|amp);/g, (e) => ENT[e]);
/** The attributes of a script element that is alone in the text, or a complaint. Written after the tokenizer of the HTML standard. */
const parseScript = (text) => {
  let i = 0; const t = text.trim(); const low = t.toLowerCase();
  if (!low.startsWith("<script")) return `no script but ${t.slice(0, 60)}`;
  i = 7; const attrs = {};
  for (;;) {
    while (/\s/.test(t[i] ?? "") || (t[i] === "/" && t[i + 1] !== ">")) i++;
    if (i >= t.length) return "a tag that does not end";
    if (t[i] === ">") { i++; break; }
    if (t.startsWith("/>", i)) { i += 2; break; }
    let n = ""; while (i < t.length && !/[\s=>/]/.test(t[i])) n += t[i++];
    while (/\s/.test(t[i] ?? "")) i++;
    let v = true;
    if (t[i] === "=") {
      i++; while (/\s/.test(t[i] ?? "")) i++; const q = t[i];
      if (q === '"' || q === "'") { const e = t.indexOf(q, i + 1); if (e < 0) return "a value that does not end"; v = t.slice(i + 1, e); i = e + 1; } else { v = ""; while (i < t.length && !/[\s>]/.test(t[i])) v += t[i++]; }
      v = decode(v);
    }
    n = n.toLowerCase(); if (n && !(n in attrs)) attrs[n] = v;
  }
  if (low.slice(i).trim() !== "</script>") return `after its tag: ${t.slice(i, i + 60)}`;
  return attrs;
};
const attributesOf = (r) => ({ "data-recording-token": TOKEN[r.token], src: SRC[r.src], "data-is-production-environment": r.prod, ...(r.extra ? { crossorigin: "anonymous", nonce: `a"b<c>`, hidden: true } : {}) });
const sorted = (o) => (typeof o === "string" ? o : JSON.stringify(o, Object.keys(o).sort()));
const asked = (v) => (v === undefined ? "unset" : v);
const unset = (v) => (v === "unset" ? undefined : v);
const tagsOf = { own: { src: "/app.js" }, inline: { innerHTML: "var a = 1 < 2 && 3 > 2;" } };

/** A compiler as webpack and rspack have them, one compilation at a time. */
const compilerOf = (s, mode) => {
  class RawSource { constructor(t) { this.t = t; } source() { return this.t; } }
  const Compilation = { PROCESS_ASSETS_STAGE_ADDITIONS: -100, PROCESS_ASSETS_STAGE_REPORT: 5000, PROCESS_ASSETS_STAGE_OPTIMIZE: 100, PROCESS_ASSETS_STAGE_SUMMARIZE: 1000 };
  const lib = { Compilation, sources: { RawSource } };
  const c = { options: { mode }, webpack: lib, rspack: lib, taps: [], hooks: { compilation: { tap: (_n, f) => c.taps.push(f) }, thisCompilation: { tap: (_n, f) => c.taps.push(f) } } };
  c.compile = () => {
    const comp = { html: {}, stages: [], hooks: {} };
    comp.hooks.processAssets = { tap: (_o, f) => comp.stages.push(f), tapPromise: (_o, f) => comp.stages.push(f) };
    comp.updateAsset = (f, x) => { comp.assets[f] = typeof x === "function" ? x(comp.assets[f]) : x; };
    comp.assetsPass = async (text) => {
      comp.assets = { "index.html": new RawSource(text), "app.js": new RawSource(text), "page.html.map": new RawSource(text) };
      for (const f of comp.stages) await f(comp.assets);
      for (const [n, x] of Object.entries(comp.assets)) if (n !== "index.html" && String(x.source()) !== text) s.bad ??= `${n} is changed`;
      return String(comp.assets["index.html"].source());
    };
    comp.pagePass = (which, text) => new Promise((done, fail) => {
      const f = comp.html[which]; if (!f) return done(text);
      const data = { html: text, outputName: "index.html", plugin: s };
      const end = (e, d) => (e ? fail(e) : (d?.plugin !== s ? (s.bad ??= "the page's data are lost") : 0, done(d.html)));
      if (f.sync) done((f(data) ?? data).html); else if (f.promise) f(data).then((d) => done(d.html), fail); else f(data, end);
    });
    for (const f of c.taps) f(comp, {});
    return comp;
  };
  return c;
};
const hooksFor = (which) => (comp) => ({ beforeEmit: { tapAsync: (_n, f) => { comp.html[which] = f; }, tap: (_n, f) => { comp.html[which] = Object.assign(f, { sync: true }); }, tapPromise: (_n, f) => { comp.html[which] = Object.assign(f, { promise: true }); } } });

const driver = (inst) => ({
  setup(init) {
    const s = { init, page: "", segs: [], out: null, ctx: null, warned: 0, warn: console.warn, scripts: [], n: 0 };
    console.warn = () => { s.warned++; };
    const mods = {
      "html-webpack-plugin": { getHooks: hooksFor("page") }, "@rspack/core": { HtmlRspackPlugin: { getCompilationHooks: hooksFor("hook1") } },
      "html-rspack-plugin": { default: Object.assign(() => {}, { getCompilationHooks: hooksFor("hook2") }) }, "@rsbuild/core/compiled/html-rspack-plugin": Object.assign(() => {}, { getCompilationHooks: hooksFor("hook3") }),
    };
    const has = (id) => id in mods && (init.bundler === "webpack-hook" ? id === "html-webpack-plugin" : init.bundler === "rspack" ? id !== "html-webpack-plugin" : false);
    const createRequire = () => Object.assign((id) => { if (!has(id)) throw Object.assign(new Error(`Cannot find module '${id}'`), { code: "MODULE_NOT_FOUND" }); return mods[id]; }, { resolve: (id) => id });
    s.m = inst({ module: { createRequire }, unplugin: { createUnplugin: (f) => f }, "@nuxt/kit": { defineNuxtModule: (x) => x } }, { process: { env: init.env === "unset" ? {} : { NODE_ENV: init.env }, cwd: () => "/app" } });
    return s;
  },
  options(s) {
    const c = s.init; const ask = (f) => (ctx) => { s.ctx = ctx; return f(ctx); };
    const o = { recordingToken: TOKEN[c.tok] };
    if (c.enabled !== "unset") o.enabled = c.enabled === "asked-yes" ? ask(() => true) : c.enabled === "asked-no" ? ask(() => false) : c.enabled === "asked-prod" ? ask((x) => x.isProduction) : c.enabled;
    if (c.inject !== "auto") o.inject = c.inject;
    if (c.attrs === "url") o.snippetUrl = SRC.own;
    if (c.attrs === "extra") o.attributes = { crossorigin: "anonymous", nonce: `a"b<c>`, hidden: true, skipped: false, gone: null, undef: undefined };
    if (c.attrs === "over") o.attributes = { "data-recording-token": "other", src: SRC.own, "data-is-production-environment": "maybe" };
    if (c.attrs === "bad") o.attributes = { "x onload": "1", 'a"b': "2", "><b": "3", "": "4", "a=b": true, "data-x\nonload": "5", "data-y\n": "6" };
    return c.tok === "missing" ? (delete o.recordingToken, c.enabled === "unset" && c.attrs === "none" && c.inject === "auto" ? undefined : o) : o;
  },
  /** one instance of the plugin, as the bundler holds it: a function from (hook, page) to the page */
  plug(s) {
    const c = s.init; const opts = this.options(s);
    if (c.bundler === "rsbuild") { let f; const plugin = s.m.rsbuild.default(opts); plugin.setup({ modifyHTML: (g) => { f = typeof g === "function" ? g : g.handler; } }); return async (_h, t) => f(t, { compiler: { options: { mode: unset(c.mode) } }, filename: "index.html" }); }
    if (c.bundler === "nuxt") {
      const app = s.scripts.length ? { head: { script: s.scripts.map((x) => tagsOf[x]) } } : {};
      const nuxt = { options: { dev: c.mode !== "production", builder: "@nuxt/vite-builder", app } };
      // a module without a token fails when it is set up; the build does that here
      const run = () => { s.m.nuxt.default.setup(opts ?? {}, nuxt); return nuxt.options.app.head?.script ?? []; };
      const first = run(); return async () => first;
    }
    const plugin = s.m.index.unpluginFactory(opts, { framework: c.bundler.split("-")[0] });
    if (c.bundler === "vite") {
      if (c.cmd !== "unset") plugin.vite.config({}, { mode: c.mode, command: c.cmd });
      const t = plugin.vite.transformIndexHtml; const f = typeof t === "function" ? t : t.handler ?? t.transform;
      return async (_h, text) => f(text, { path: "/index.html", filename: "/app/index.html" }) ?? text;
    }
    const compiler = compilerOf(s, unset(c.mode)); plugin[c.bundler === "rspack" ? "rspack" : "webpack"](compiler);
    let comp = null;
    return async (h, text) => { if (!comp || c.bundler === "webpack") comp = compiler.compile(); return h === "assets" ? comp.assetsPass(text) : comp.pagePass(h, text); };
  },
  async step(s, a) {
    if (a.n === "put") { if (s.init.bundler === "nuxt") { if (tagsOf[a.x]) s.scripts.push(a.x); } else if (a.x !== "nohead") { s.page += TEXT[a.x]; } }
    else if (a.n === "build") {
      try { s.plugs = [this.plug(s), ...(s.init.bundler === "nuxt" ? [] : [this.plug(s)])]; s.out = s.page; } catch (e) { if (!(e instanceof Error)) return "not an error"; s.refused = true; }
    } else if (a.n === "pass") { s.ctx = null; s.out = await s.plugs[s.n++ % s.plugs.length](a.h, s.out); }
    else if (a.n === "minify") s.out = minified(s.out);
    return s.bad;
  },
  observe(s, st) {
    if (st.ph === "refused" || s.refused) return { refused: !!s.refused };
    if (st.ph !== "built") return {};
    const ctx = s.ctx && { framework: s.ctx.framework, mode: asked(s.ctx.mode), command: asked(s.ctx.command), isProduction: s.ctx.isProduction };
    if (s.init.bundler === "nuxt") {
      if (!st.passes) return {};
      return { out: s.out.map((x) => (x === tagsOf.own ? "own" : x === tagsOf.inline ? "inline" : sorted(x))), warned: 0 };
    }
    const text = (x) => tight(st.min ? minified(TEXT[x]) : TEXT[x]).trim(); const now = tight(s.out).trim();
    const at = st.out.indexOf("R"); const before = st.out.slice(0, at < 0 ? st.out.length : at).map(text).join(""); const after = at < 0 ? "" : st.out.slice(at + 1).map(text).join("");
    let out;
    if (at < 0) out = now === before && (s.n === 0 || st.min || s.out === s.page) ? "as it was" : `not as it was: ${s.out}`;
    else if (!now.startsWith(before) || !now.endsWith(after) || now.length < before.length + after.length) out = `other parts differ: ${s.out}`;
    else out = sorted(parseScript(now.slice(before.length, now.length - after.length)));
    return { out, warned: s.warned > 0, ctx: ctx ?? "not asked" };
  },
  expect(st, act) {
    if (st.ph === "refused") return { refused: true };
    if (st.ph !== "built") return {};
    const rec = sorted(attributesOf(st.rec));
    if (st.bundler === "nuxt") return st.passes ? { out: st.out.map((x) => (x === "R" ? rec : x)), warned: 0 } : {};
    return { out: st.out.includes("R") ? rec : "as it was", warned: st.warned > 0 };
  },
  teardown(s) { console.warn = s.warn; },
});
// what the user's own choice is told
const withContext = (d) => ({ ...d, observe(s, st, act) { const o = d.observe(s, st, act); if (!("ctx" in o)) return o; const { ctx, ...rest } = o; return ctx === "not asked" ? rest : { ...rest, ctx: JSON.stringify(ctx) }; },
  expect(st, act, s) { const o = d.expect(st, act); return s?.ctx && st.ph === "built" && st.bundler !== "nuxt" ? { ...o, ctx: JSON.stringify({ framework: st.ctx.framework, mode: st.ctx.mode, command: st.ctx.command, isProduction: st.ctx.isProduction }) } : o; } });
const INV = { invariants: ["OnlyOne", "Injection", "Off", "Untouched", "First", "Refusals", "NoSurprise"], properties: ["Stays"] };
const ALL = ["vite", "webpack-hook", "webpack", "rspack", "rsbuild"];
export default {
  property: "L02",
  assumptions: ["bundlers are doubles of vite, webpack, rspack, rsbuild and Nuxt as far as the plugin touches them", "pages have quotes around attributes' values until they are minified, and no markup inside of strings of scripts"],
  models: [{
    name: "inject", spec: "Inject", driver: async () => withContext(driver(await bundle({ index: "recorder-plugin/src/index.ts", rsbuild: "recorder-plugin/src/rsbuild.ts", nuxt: "recorder-plugin/src/nuxt.ts" }))),
    runs: ({ tier }) => {
      const deep = tier === "thorough";
      const base = { Bundlers: set(...ALL), Enableds: set("always"), Injects: set("auto", "replace"), Tokens: set("plain"), Attrs: set("none"), Modes: set("development", "unset"), Commands: set("serve", "unset"), Envs: set("unset"), Pre: set("doctype", "html"), HeadForms: set("head"), InHead: set("own"), InBody: set("inline"), MaxHead: 1, MaxBody: 0, MaxPasses: 2, Minifies: "FALSE" };
      return [
        { name: "pages", cfg: { constants: { ...base, Modes: set("development"), Commands: set("serve", "unset"), Pre: set("doctype", "c_head", "html"), HeadForms: set("head", "headattrs", "HEAD", "headgt", "nohead"), InHead: set("own", "manual", "ph", "c_ph"), InBody: set("ph", "own", "headx"), MaxHead: 1, MaxBody: deep ? 2 : 1, MaxPasses: 1 }, ...INV }, maxPaths: 12000, walks: 300 },
        { name: "pieces", cfg: { constants: { ...base, Bundlers: set("vite"), Modes: set("development"), Commands: set("serve"), Pre: set("html"), InHead: set("own", "inline", "title", "manual", "c_ph", "c_rec", "ph", "phattrs", "phself", "PH", "phfull", "look1", "look2", "look3", "look4", "look5", "look6", "headx"), InBody: set("ph"), MaxHead: deep ? 3 : 2, MaxBody: 1, MaxPasses: 1 }, ...INV }, maxPaths: 30000, walks: 300 },
        { name: "hooks", cfg: { constants: { ...base, Tokens: set("plain", "odd"), Attrs: set("none", "over", "extra"), Pre: set("html", "c_head"), HeadForms: set("head", "nohead"), InHead: set("own", "ph", "manual", "c_rec", "look3"), InBody: set("ph"), MaxHead: deep ? 2 : 1, MaxBody: 0, MaxPasses: 3, Minifies: "TRUE" }, ...INV }, maxPaths: 25000, walks: 500 },
        { name: "settings", cfg: { constants: { ...base, Bundlers: set(...ALL, "nuxt"), Enableds: set("unset", "development", "always", "never", "asked-yes", "asked-no", "asked-prod"), Injects: set("auto"), Tokens: set("plain", "odd", "empty", "missing", "number"), Attrs: set("none", "extra", "over", "bad", "url"), Modes: set("development", "production", "staging", "unset"), Commands: set("serve", "build", "unset"), Envs: set("unset", "production", ...(deep ? ["development"] : [])), Pre: set("html"), MaxPasses: 1, InHead: set("own"), MaxHead: deep ? 1 : 0 }, ...INV }, maxPaths: 30000, walks: 300 },
        { name: "nuxt", cfg: { constants: { ...base, Bundlers: set("nuxt"), Injects: set("auto"), Tokens: set("plain", "odd"), Attrs: set("none", "extra", "over", "url"), Modes: set("development", "production"), Commands: set("unset"), InHead: set("own", "inline"), MaxHead: 3, MaxPasses: 1 }, ...INV }, maxPaths: 3000, walks: 100 },
      ];
    },
  }],
};
