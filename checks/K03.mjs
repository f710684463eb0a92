import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { bundle } from "../lib/bundle.mjs";
import { containedFs, snapshot } from "../harness/contained-fs.mjs";
import { tomlReader } from "../harness/toml.mjs";
const set = (...a) => `{${a.map((x) => (typeof x === "string" ? `"${x}"` : String(x).toUpperCase())).join(", ")}}`;
const { join } = path;
const URL_ = "https://app.meticulous.ai/api/mcp";
const quiet = (f) => { const old = { log: console.log, error: console.error, warn: console.warn }; console.log = console.error = console.warn = () => {}; try { return f(); } finally { Object.assign(console, old); } };
const attempt = (f) => { try { return { value: f() }; } catch (error) { return { error }; } };

/** What each item of a file is written as, and what it means. */
const MET = `[mcp_servers.Meticulous]\nurl = "${URL_}"\n`;
const ITEMS = {
  kv: ['model = "x" # [mcp_servers.Meticulous]\n', { model: "x" }],
  ml: [`note = """\n[fake]\n[mcp_servers.Meticulous]\nurl = "${URL_}"\n"""\n`, { note: `[fake]\n[mcp_servers.Meticulous]\nurl = "${URL_}"\n` }],
  lit: ["lit = '''\n[[mcp_servers]]\nmcp_servers = 1 # \"\"\"\n[x'''\n", { lit: '[[mcp_servers]]\nmcp_servers = 1 # """\n[x' }],
  arr: ['list = [ # [\n  ["a"],\n  ["mcp_servers"]\n  , "]"]\n', { list: [["a"], ["mcp_servers"], "]"] }],
  esc: ['esc = "a \\" [ b"\nlone = \'[\'\n', { esc: 'a " [ b', lone: "[" }],
  dotother: ['mcp_servers.Dot.command = "d"\n', { mcp_servers: { Dot: { command: "d" } } }],
  dotmet: ['mcp_servers.Meticulous.command = "evil"\n'],
  qdotmet: ['"mcp_servers" . \'Meticulous\' = { command = "evil" }\n'],
  inline: ['mcp_servers = { Other = { command = "c" } }\n'],
  scalar: ['mcp_servers = "no"\n'],
  tools: ["[tools]\nk = 1\nmcp_servers.Meticulous.command = \"mine\"\n", { tools: { k: 1, mcp_servers: { Meticulous: { command: "mine" } } } }],
  other: ['[mcp_servers.Other]\ncommand = "c"\nargs = [\n  "-x",\n  "[mcp_servers.Meticulous]"\n]\n', { mcp_servers: { Other: { command: "c", args: ["-x", "[mcp_servers.Meticulous]"] } } }],
  servers: ['[mcp_servers]\nThird = { url = "u" }\n', { mcp_servers: { Third: { url: "u" } } }],
  notes: [`[notes]\ntext = """one\n[mcp_servers.Meticulous]\ncommand = "no" \\\n  """ # [x]\n`, { notes: { text: 'one\n[mcp_servers.Meticulous]\ncommand = "no" ' } }],
  matrix: ["[matrix]\nrows = [\n  [1, 2],\n  [3]\n]\nlast = true\n", { matrix: { rows: [[1, 2], [3]], last: true } }],
  quotes: ["[quotes]\nq = \"\"\"a\"\"\"\"\"\nw = ''''b'''\nz = 1\n", { quotes: { q: 'a""', w: "'b", z: 1 } }],
  near: ['[mcp_servers.meticulous]\nurl = "lower"\n[other.mcp_servers.Meticulous]\ncommand = "not this"\n', { mcp_servers: { meticulous: { url: "lower" } }, other: { mcp_servers: { Meticulous: { command: "not this" } } } }],
  serversmet: ['[mcp_servers]\nMeticulous = { command = "evil" }\n'],
  serversdot: ['[mcp_servers]\nMeticulous.command = "evil"\n'],
  aot: ['[[mcp_servers]]\nname = "x"\n'],
  open: ['[tail]\nx = [\n  "a",\n'],
  M: [MET], Mlit: [MET.replace(/"/g, "'")], Mquoted: [MET.replace("Meticulous", '"Metic\\u0075lous"')], Mlong: [MET.replace("Meticulous", '"\\U0000004deticulous"')], Mcomment: [MET.replace("]", " ] # mine")],
  Mlongevil: ['[mcp_servers."\\U0000004Deticulo\\u0075s"]\ncommand = "evil"\n'], Mevil: ['[mcp_servers.Meticulous]\ncommand = "node"\nargs = [\n  ["evil.js"]\n]\n'], Mextra: [`${MET}env = { A = "1" }\n`], Mbare: ["[mcp_servers.Meticulous]\n"], Munq: [MET.replace(/"/g, "")],
  Menv: [MET.replace("Meticulous", "Meticulous.env")], MM: [MET.replace(/\[(.*)\]/, "[[$1]]")], Mml: [`[mcp_servers.Meticulous]\ncommand = """\n[tools2]\nurl = "${URL_}"\n"""\n`], Mtwice: [`${MET}url = "${URL_}"\n`], Mold: ['[mcp_servers.Meticulous]\nurl = "https://elsewhere"\n'],
};
const STYLES = { plain: (t) => t, crlf: (t) => t.replace(/\n/g, "\r\n"), open: (t) => t.replace(/\n$/, ""), airy: (t) => `\n# keep\n${t}\n\n# keep\n`, indented: (t) => t };
const merge = (a, b) => { for (const [k, v] of Object.entries(b)) a[k] = v && typeof v === "object" && !Array.isArray(v) && a[k] ? merge(structuredClone(a[k]), v) : v; return a; };
const stable = (v) => (Array.isArray(v) ? v.map(stable) : v && typeof v === "object" ? Object.fromEntries(Object.keys(v).sort().map((k) => [k, stable(v[k])])) : v);
const render = (doc, style) => { const parts = doc.map((x) => ITEMS[x][0]).map((t) => (style === "indented" ? t.replace(/^\[/, "  [") : t)); return doc.length ? STYLES[style](parts.join(style === "airy" ? "\n\n" : "")) : undefined; };
const REL = [".mcp.json", ".cursor/mcp.json", ".codex/config.toml"];
const scratch = () => { const top = fs.realpathSync(fs.mkdtempSync(join(os.tmpdir(), "verif-k03-"))); const root = join(top, "a/b/repo"); fs.mkdirSync(root, { recursive: true }); fs.mkdirSync(join(top, "outside")); fs.writeFileSync(join(top, "outside/f"), "x"); return { top, root, cleanup: () => fs.rmSync(top, { recursive: true, force: true }) }; };
const contained = (s) => { const c = containedFs(s.top); s.log = c.log; return { fs: c.fs, "node:fs": c.fs, "fs/promises": c.promises, "node:fs/promises": c.promises }; };

const codex = (inst) => {
  const toml = tomlReader();
  return {
    async setup(init) { const s = scratch(); s.m = inst(contained(s)); s.file = join(s.root, REL[2]); s.style = init.style; s.result = ""; return s; },
    async step(s, a, to, from) {
      if (a.n === "add") return;
      if (from.merges === 0) { const t = render(from.doc, s.style); if (t !== undefined) { fs.mkdirSync(path.dirname(s.file), { recursive: true }); fs.writeFileSync(s.file, t); } }
      const read = () => (fs.existsSync(s.file) ? fs.readFileSync(s.file, "utf8") : undefined);
      const before = read(); const r = attempt(() => s.m.mergeCodexMcp(s.root, REL[2], URL_)); const after = read();
      s.result = r.error ? "refused" : after === before ? "kept" : "written";
      if (r.error && after !== before) return "it was refused, and the file changed";
      if (r.error && !(r.error.message.includes(REL[2]) && r.error.name === "CliUserError")) return `it fails with ${r.error}`;
      if (Object.keys(snapshot(s.root)).some((p) => ![".codex", REL[2]].includes(p))) return "something else was written";
      if (r.error) return;
      const got = await toml.read(after); if (got.error) return `the file cannot be read any more (${got.error}): ${JSON.stringify(after)}`;
      const want = { mcp_servers: { Meticulous: { url: URL_ } } };
      for (const x of to.doc) if (ITEMS[x][1]) merge(want, structuredClone(s.style === "crlf" ? ITEMS[x][1] : ITEMS[x][1]));
      if (JSON.stringify(stable(got.value)) !== JSON.stringify(stable(want))) return `the file means ${JSON.stringify(stable(got.value))}, not ${JSON.stringify(stable(want))}`;
      if (s.style === "airy" && before !== undefined && (before.match(/# keep/g)?.length ?? 0) - (after.match(/# keep/g)?.length ?? 0) > (from.doc.at(-1)?.startsWith("M") ? 1 : 0)) return "comments are lost";
    },
    observe(s) { return { result: s.result }; },
    expect(st) { return { result: st.result }; },
    async teardown(s) { s.cleanup(); },
    close() { toml.close(); },
  };
};

const entry = (i) => (i === 0 ? { type: "http", url: URL_ } : { url: URL_ });
const other = { Other: { command: "c", args: ["a"], env: { Meticulous: "no" } } };
const JSONS = {
  absent: () => undefined, empty: () => "{}", noservers: () => '{"a":[1,{"b":null}],"mcp":{"x":1}}', others: () => JSON.stringify({ z: 1, mcpServers: other, $schema: "s" }), proto: () => `{"mcpServers":{"__proto__":{"Meticulous":${JSON.stringify(entry(0))}},"Meticulous2":{}},"__proto__":{"p":1}}`,
  extra: (i) => JSON.stringify({ mcpServers: { Meticulous: { ...entry(i), command: "evil" }, ...other } }), wrong: (i) => JSON.stringify({ mcpServers: { ...other, Meticulous: { ...entry(i), url: `${URL_}/x` } } }), partly: (i) => JSON.stringify({ mcpServers: { Meticulous: i === 0 ? { url: URL_ } : { type: "http", url: URL_ } } }), nothing: () => '{"mcpServers":{"Meticulous":null}}', list: (i) => JSON.stringify({ mcpServers: { Meticulous: [entry(i)] } }), text: () => JSON.stringify({ mcpServers: { Meticulous: URL_ } }), renamed: (i) => JSON.stringify({ mcpServers: { Meticulous: i === 0 ? { Type: "http", url: URL_ } : { Url: URL_ } } }),
  exact: (i) => JSON.stringify({ mcpServers: { Meticulous: entry(i), ...other } }), reordered: (i) => `{\n\t"mcpServers": {"Meticulous": ${JSON.stringify(Object.fromEntries(Object.entries(entry(i)).reverse()))}}, "x": 1}`,
  malformed: () => '{"mcpServers":{},}', blank: () => "", commented: () => '{ // mine\n"a":1}', array: () => "[]", scalar: () => "7", nil: () => "null", nilservers: () => '{"mcpServers":null}', listservers: () => '{"mcpServers":[]}', textservers: () => '{"mcpServers":"x"}', falseservers: () => '{"mcpServers":false}', link: () => "link", dir: () => "dir",
};
const TOMLS = { absent: undefined, toml: ITEMS.tools[0] + ITEMS.other[0], evil: ITEMS.Mevil[0] + ITEMS.tools[0], exact: MET, blocked: ITEMS.dotmet[0], link: "link", dir: "dir" };
const BAD = ["malformed", "blank", "commented", "array", "scalar", "nil", "nilservers", "listservers", "textservers", "falseservers", "link", "dir"], EXACT = ["exact", "reordered"], GOOD = Object.keys(JSONS).filter((k) => !BAD.includes(k) && !EXACT.includes(k));
const files = (inst) => {
  const toml = tomlReader(); const plain = (v) => JSON.stringify(v);
  return {
    async setup(init) {
      const s = scratch(); s.m = inst(contained(s)); s.result = "";
      s.was = init.files.map((k, i) => { const c = i === 2 ? TOMLS[k] : JSONS[k](i); const p = join(s.root, REL[i]); if (c === undefined) return undefined; fs.mkdirSync(path.dirname(p), { recursive: true }); if (c === "link") fs.symlinkSync(join(s.top, "outside/f"), p); else if (c === "dir") fs.mkdirSync(p); else fs.writeFileSync(p, c); return c; });
      return s;
    },
    async step(s, a, to, from) {
      const before = snapshot(s.root); const r = quiet(() => attempt(() => s.m.ensureProjectMcp(s.root))); s.result = r.error ? "error" : "ok"; const after = snapshot(s.root);
      if (s.log.escapes.length || fs.readFileSync(join(s.top, "outside/f"), "utf8") !== "x") return "something outside the repository changed";
      for (let i = 0; i < 3; i++) {
        const k = from.files[i], f = REL[i];
        if (to.files[i] === k) { if (before[f] !== after[f]) return `${f} (${k}) changed`; if (r.error && i < 2 && BAD.includes(k) && k !== "dir" && !r.error.message.includes(f)) return `${f} is not reported`; continue; }
        const got = after[f]?.startsWith("file ") ? after[f].slice(5) : undefined; if (got === undefined) return `${f} (${k}) is not written`;
        if (i === 2) { const v = await toml.read(got); const want = { mcp_servers: { Meticulous: { url: URL_ } } }; if (k === "toml" || k === "evil") merge(want, ITEMS.tools[1]); if (k === "toml") merge(want, structuredClone(ITEMS.other[1])); if (plain(stable(v.value)) !== plain(stable(want))) return `${f} (${k}) is ${got}`; continue; }
        const want = JSON.parse(s.was[i] ?? "{}"); const servers = want.mcpServers ?? {}; Object.defineProperty(servers, "Meticulous", { value: entry(i), enumerable: true, configurable: true, writable: true }); want.mcpServers = servers;
        const v = attempt(() => JSON.parse(got)).value; if (plain(stableOwn(v)) !== plain(stableOwn(want))) return `${f} (${k}) is ${got}`;
      }
      if (r.error && r.error.name !== "CliUserError") return `it fails with ${r.error}`;
    },
    observe(s) { return { result: s.result }; },
    expect(st) { return { result: st.result }; },
    async teardown(s) { s.cleanup(); },
    close() { toml.close(); },
  };
};
/** sorted, as pairs: a key may be __proto__ */
const stableOwn = (v) => (Array.isArray(v) ? v.map(stableOwn) : v && typeof v === "object" ? Object.keys(v).sort().map((k) => [k, stableOwn(Object.getOwnPropertyDescriptor(v, k).value)]) : v);

const ROOT = ["kv", "ml", "lit", "arr", "esc", "dotother", "dotmet", "qdotmet", "inline", "scalar"], TABLES = ["tools", "other", "servers", "notes", "matrix", "quotes", "near", "serversmet", "serversdot", "aot", "open"], METS = Object.keys(ITEMS).filter((k) => k.startsWith("M"));
export default {
  property: "K03",
  assumptions: ["apart from what stands under the product's own name, and values that are never closed, a TOML file is a valid one", "JSON objects have no key twice"],
  models: [
    {
      name: "codex", spec: "CodexConfig", driver: async () => codex(await bundle("cli/src/commands/onboard/codex-mcp.ts")),
      runs: ({ tier }) => {
        const run = (name, styles, MaxItems, maxPaths) => ({ name, cfg: { constants: { Root: set(...ROOT), Tables: set(...TABLES), Met: set(...METS), Canonical: set("M", "Mlit", "Mquoted", "Mlong", "Mcomment"), Blockers: set("dotmet", "qdotmet", "inline", "scalar", "serversmet", "serversdot", "aot", "open"), Styles: set(...styles), MaxItems, MaxMerges: 2 }, invariants: ["CanonicalOnly"], properties: ["RestKept", "Idempotent", "RefusedUntouched"] }, maxPaths, walks: 500 });
        return tier === "thorough" ? [run("toml", ["plain"], 3, 60000), run("styles", ["plain", "crlf", "open", "airy", "indented"], 3, 60000)] : [run("toml", ["plain"], 3, 12000), run("styles", ["crlf", "open", "airy", "indented"], 2, 6000)];
      },
    },
    {
      name: "files", spec: "McpFiles", driver: async () => files(await bundle("cli/src/commands/onboard/setup-agent-integrations.ts")),
      runs: () => [{ name: "agents", cfg: { constants: { Good: set(...GOOD), Exact: set(...EXACT), Bad: set(...BAD), GoodToml: set("absent", "toml", "evil"), ExactToml: set("exact"), BadToml: set("blocked", "link", "dir"), MaxRuns: 2 }, invariants: ["Independent", "ErrorIffBad"], properties: ["BadUntouched"] }, maxPaths: 8000, walks: 100 }],
    },
  ],
};
