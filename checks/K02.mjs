import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { bundle, REPO } from "../lib/bundle.mjs";
import { Process } from "../harness/process.mjs";
import { containedFs, snapshot } from "../harness/contained-fs.mjs";
const set = (...a) => `{${a.map((x) => (typeof x === "string" ? `"${x}"` : typeof x === "boolean" ? String(x).toUpperCase() : x)).join(", ")}}`;
const { join } = path;
const SECRET = "do not touch";
/** A scratch directory: the repository far below, and what lies outside next to it. */
const scratch = () => {
  const top = fs.realpathSync(fs.mkdtempSync(join(os.tmpdir(), "verif-k02-"))); const root = join(top, "w/x/y/z/repo"), outside = join(top, "outside");
  fs.mkdirSync(root, { recursive: true }); fs.mkdirSync(join(outside, "dir"), { recursive: true }); fs.mkdirSync(join(top, "tmp")); fs.writeFileSync(join(outside, "file"), SECRET); fs.writeFileSync(join(outside, "dir/file"), SECRET); fs.symlinkSync(root, join(top, "way"));
  return { top, root, outside, before: JSON.stringify(snapshot(outside)), cleanup: () => fs.rmSync(top, { recursive: true, force: true }) };
};
const LEADS = (s, t) => ({ outdir: join(s.outside, "dir"), outfile: join(s.outside, "file"), nowhere: join(s.outside, "new"), inside: s.root, link: join(s.outside, "dir") })[t];
const put = (s, at, t) => { const p = join(s.root, at); if (t === "dir" || t === "skill") fs.mkdirSync(p, { recursive: true }); else { fs.mkdirSync(path.dirname(p), { recursive: true }); if (t === "file") fs.writeFileSync(p, "old"); else fs.symlinkSync(at.length % 2 ? LEADS(s, t) : path.relative(path.dirname(p), LEADS(s, t)), p); } };
const outsideAsWas = (s) => (JSON.stringify(snapshot(s.outside)) !== s.before ? "something outside the repository changed" : s.log.escapes.length ? `writes outside: ${s.log.escapes[0].replace(s.top, "")}` : fs.readdirSync(join(s.top, "w/x/y/z")).length !== 1 || fs.readdirSync(join(s.top, "w/x/y")).length !== 1 || fs.readdirSync(s.top).length !== 4 ? "something was written next to the repository" : undefined);
const contained = (s, extra = {}) => { const c = containedFs(s.top); s.log = c.log; return { fs: c.fs, "node:fs": c.fs, "fs/promises": c.promises, "node:fs/promises": c.promises, os: { ...os, tmpdir: () => join(s.top, "tmp") }, ...extra }; };
const quiet = (f) => { const old = { log: console.log, error: console.error, warn: console.warn }; console.log = console.error = console.warn = () => {}; try { return f(); } finally { Object.assign(console, old); } };
const attempt = (f) => { try { return { value: f() }; } catch (error) { return { error }; } };

const safefs = (inst) => ({
  async setup(init) { const s = scratch(); s.m = inst(contained(s)); s.given = init.via === "link" ? join(s.top, "way") : s.root; s.source = join(s.top, "tmp/source"); fs.writeFileSync(s.source, "copied"); s.result = ""; return s; },
  async step(s, a) {
    if (a.n === "seed") { put(s, a.p.join("/"), a.t); return; }
    if (a.n === "usable") { s.result = s.m.isRealDirectoryInsideProject(s.given, join(s.root, ...a.p)) ? "yes" : "no"; return outsideAsWas(s); }
    const before = JSON.stringify(snapshot(s.root));
    const given = { plain: () => a.p.join("/"), dot: () => `./${a.p.join("/")}`, slash: () => `${a.p.join("/")}/`, double: () => a.p.join("//"), backslash: () => a.p.join("\\"), absolute: () => join(s.root, a.p.join("/")) || "/" }[a.form]();
    const r = attempt(() => (a.n === "write" ? s.m.writeFileSafeSync(s.given, given, "written") : a.n === "copy" ? s.m.copyFileSafeSync(s.given, given, s.source) : s.m.mkdirSafeSync(s.given, given)));
    s.result = r.error ? "error" : "ok";
    if (r.error && JSON.stringify(snapshot(s.root)) !== before && !(a.n === "copy" && !/^Refusing/.test(r.error.message))) return "it failed, and something changed";
    if (!r.error && fs.realpathSync(r.value) !== path.resolve(s.root, a.p.join("/"))) return "another path is reported";
    return outsideAsWas(s);
  },
  observe(s) { return { result: s.result, tree: Object.entries(snapshot(s.root)).map(([p, t]) => `${p} ${t.split(" ")[0] === "link" ? "link" : t}`).sort().join() }; },
  expect(st) { return { result: st.result, tree: st.tree.map((e) => `${e.p.join("/")} ${e.t === "dir" ? "dir" : e.t === "file" ? "file old" : ["written", "copied"].includes(e.t) ? `file ${e.t}` : "link"}`).sort().join() }; },
  async teardown(s) { s.cleanup(); },
});

// -------------------------------------------------------------------------------------------------
const onboardDir = "cli/src/commands/onboard";
const AT = { ws: "", wsignore: ".gitignore", claude: ".claude", claudemd: ".claude/CLAUDE.md", settings: ".claude/settings.json", agents: ".claude/agents", agent: ".claude/agents/*A", docs: ".claude/docs", doc: ".claude/docs/*D", howto: ".claude/docs/how-to", nested: ".claude/docs/how-to/*N", snippets: ".claude/docs/recorder-snippets", snippet: ".claude/docs/recorder-snippets/one.ts", context1: ".claude/onboard-context.json", context2: "onboard-context.json" };
const GITIGNORE = { has: "a\n.meticulous-onboard\nb\n", hasslash: "a\n.meticulous-onboard/\n", hascrlf: "a\r\n.meticulous-onboard/\r\nb\r\n", other: "node_modules\n.meticulous-onboard-old/\n", open: "node_modules", commented: "# .meticulous-onboard/\nx\n", empty: "" };
const onboard = (inst) => {
  const names = JSON.parse(fs.readFileSync(join(REPO, "packages", onboardDir, "customer-agents.json"))).customerAgentNames; const docs = JSON.parse(fs.readFileSync(join(REPO, "packages", onboardDir, "customer-docs.json")));
  const place = (p) => join(".meticulous-onboard", AT[p].replace("*A", `${names[0]}.md`).replace("*D", docs.docFiles.find((f) => !f.includes("/"))).replace("*N", docs.docFiles.find((f) => f.startsWith("how-to/")).slice(7)));
  const content = (f) => `contents of ${f} \${kept} \`${f}\``;
  let n = 0;
  return {
    async setup(init) {
      const s = scratch(); s.lib = join(s.top, "outside/lib"); const t = join(s.lib, "templates");
      const w = (f, c) => { const p = join(t, f); fs.mkdirSync(path.dirname(p), { recursive: true }); fs.writeFileSync(p, c); };
      w("CLAUDE.md", content("CLAUDE.md")); w("settings.json", "{\"s\":1}"); names.forEach((a) => init.tpl === "noagent" && a === names.at(-1) ? 0 : w(`agents/${a}.md`, content(a))); w("agents/internal.md", "internal"); docs.docFiles.forEach((d) => init.tpl === "nodoc" && d === docs.docFiles.at(-1) ? 0 : w(`docs/${d}`, content(d))); w("docs/internal.ts", "internal"); docs.docDirs.forEach((d) => { w(`docs/${d}/one.ts`, content("one")); w(`docs/${d}/deep/two.ts`, content("two")); }); fs.mkdirSync(join(t, "docs-imports"), { recursive: true });
      s.before = JSON.stringify(snapshot(s.outside)); s.given = n++ % 2 ? join(s.top, "way") : s.root;
      s.ignored = GITIGNORE[init.ign]; if (s.ignored !== undefined) fs.writeFileSync(join(s.root, ".gitignore"), s.ignored); else if (init.ign !== "absent") put(s, ".gitignore", init.ign);
      fs.writeFileSync(join(s.root, "app.ts"), "app"); s.m = inst(contained(s), { dirname: s.lib }); s.result = ""; s.version = 0; return s;
    },
    async step(s, a, to) {
      if (a.n === "seed") { put(s, place(a.p), a.t); return; }
      if (a.n === "replace") { const p = join(s.root, place(a.p)); fs.rmSync(p, { recursive: true }); fs.symlinkSync(LEADS(s, a.t), p); return; }
      const links = Object.entries(snapshot(s.root)).filter(([, t]) => t.startsWith("link")); const before = snapshot(s.root);
      s.context = { orgAndProject: "o/p", version: ++s.version };
      const r = attempt(() => (a.n === "lay" ? s.m.materializeOnboardWorkspace({ projectRoot: s.given, context: s.context }) : s.m.updateOnboardContext({ projectRoot: s.given, workspaceDir: join(s.given, ".meticulous-onboard"), context: s.context })));
      s.result = r.error ? "error" : "ok"; const after = snapshot(s.root);
      const moved = outsideAsWas(s); if (moved) return moved;
      for (const [p, t] of links) if (after[p] !== t) return `the link ${p} was replaced`;
      if (after["app.ts"] !== "file app") return "the repository's own files were touched";
      if (r.error) { if (s.ignored !== undefined && after[".gitignore"] !== before[".gitignore"] && a.n === "update") return ".gitignore changed"; return; }
      if (a.n === "lay" && r.value !== join(s.root, ".meticulous-onboard")) return "the workspace is reported elsewhere";
      const json = `file ${JSON.stringify(s.context, null, 2)}\n`;
      const want = { ".meticulous-onboard/.gitignore": "file *\n", ".meticulous-onboard/.claude/CLAUDE.md": `file ${content("CLAUDE.md")}`, ".meticulous-onboard/.claude/settings.json": 'file {"s":1}', ".meticulous-onboard/onboard-context.json": json, ".meticulous-onboard/.claude/onboard-context.json": json };
      for (const x of names) want[`.meticulous-onboard/.claude/agents/${x}.md`] = `file ${content(x)}`;
      for (const x of docs.docFiles) want[`.meticulous-onboard/.claude/docs/${x}`] = `file ${content(x)}`;
      for (const x of docs.docDirs) { want[`.meticulous-onboard/.claude/docs/${x}/one.ts`] = `file ${content("one")}`; want[`.meticulous-onboard/.claude/docs/${x}/deep/two.ts`] = `file ${content("two")}`; }
      const got = Object.fromEntries(Object.entries(after).filter(([p, t]) => p.startsWith(".meticulous-onboard/") && t !== "dir"));
      for (const k of a.n === "update" ? Object.keys(want).filter((x) => x.endsWith(".json") && !x.includes("settings")) : new Set([...Object.keys(want), ...Object.keys(got)])) if (want[k] !== got[k]) return `${k} is ${JSON.stringify(got[k]?.slice(0, 80))}, not ${JSON.stringify(want[k]?.slice(0, 80))}`;
      if (s.ignored !== undefined && !after[".gitignore"].startsWith(`file ${s.ignored}`)) return ".gitignore lost what it had";
    },
    observe(s) { let c = ""; try { const p = join(s.root, ".gitignore"); c = fs.lstatSync(p).isFile() ? fs.readFileSync(p, "utf8") : ""; } catch {} return { result: s.result, entries: c.split(/\r?\n/).filter((l) => /^\.meticulous-onboard\/?$/.test(l)).length }; },
    expect(st) { return { result: st.result, entries: st.entries }; },
    async teardown(s) { s.cleanup(); },
  };
};

// -------------------------------------------------------------------------------------------------
const ROOT = { claude: ".claude", agents: ".agents", cursor: ".cursor" };
const skills = (inst) => ({
  async setup(init) {
    const s = scratch(); s.spawned = []; s.result = ""; s.bad = [];
    const env = { PATH: [`${s.root}/node_modules/.bin`, "/usr/bin", "", "/x/node_modules/.bin/", "/usr/node_modules/.bin/sub"].join(":"), NODE_OPTIONS: "--require ./evil.js", NODE_PATH: `${s.root}/lib`, npm_config_registry: "http://evil", NPM_CONFIG_PREFIX: s.root, HOME: "/home/u", npm_lifecycle_event: "x" };
    if (init.lock === "file") fs.writeFileSync(join(s.root, "skills-lock.json"), "{}"); if (init.lock === "link") fs.symlinkSync(join(s.outside, "file"), join(s.root, "skills-lock.json"));
    const spawnSync = (file, args, o) => {
      const e = o.env ?? {}; const wrong = Object.keys(e).filter((k) => /^(npm_config_.*|node_options|node_path)$/i.test(k));
      if (wrong.length || e.PATH !== "/usr/bin:/usr/node_modules/.bin/sub" || e.HOME !== "/home/u") s.bad.push(`environment ${wrong} ${e.PATH}`);
      if (o.shell) s.bad.push("run by a shell");
      if (file === "npm") {
        s.spawned.push("npm"); s.tmp = args[args.indexOf("--prefix") + 1];
        if (!s.tmp?.startsWith(join(s.top, "tmp") + path.sep) || o.cwd !== s.tmp || !args.includes("--ignore-scripts") || !/^skills@\d+\.\d+\.\d+$/.test(args.at(-1))) s.bad.push(`npm ${args.join(" ")} in ${o.cwd}`);
        if (s.npm === "missing") return { error: Object.assign(new Error("spawnSync npm ENOENT"), { code: "ENOENT" }), status: null, stderr: null };
        if (s.npm === "fails") return { status: 1, stderr: "404" };
        if (s.npm === "ok") { fs.mkdirSync(join(s.tmp, "node_modules/skills/bin"), { recursive: true }); fs.writeFileSync(join(s.tmp, "node_modules/skills/bin/cli.mjs"), ""); }
        return { status: 0, stderr: "" };
      }
      s.spawned.push("cli");
      if (file !== s.p.execPath || args[0] !== join(s.tmp, "node_modules/skills/bin/cli.mjs") || !fs.existsSync(args[0]) || fs.realpathSync(o.cwd) !== s.root) s.bad.push(`${file} ${args[0]} in ${o.cwd}`);
      for (const r of Object.values(ROOT)) if (!fs.lstatSync(join(s.root, r, "skills")).isDirectory()) s.bad.push(`${r} is not prepared`);
      if (s.run === "missing") return { error: new Error("spawn ENOENT"), status: null };
      fs.mkdirSync(join(s.root, ".agents/skills/new"), { recursive: true });
      if (s.run.startsWith("plants")) { const at = [".cursor/skills/evil", ".agents/skills/new/deep", ".claude/skills/x"][s.nth++ % 3]; fs.rmSync(join(s.root, at), { recursive: true, force: true }); fs.symlinkSync(join(s.outside, "dir"), join(s.root, at)); }
      return { status: s.run === "fails" || s.run === "plantsfails" ? 2 : 0 };
    };
    s.nth = Object.keys(init).length + (init.lock === "file" ? 1 : 0); s.p = new Process(["node", "cli"], env);
    s.m = inst(contained(s, { child_process: { spawnSync }, "node:child_process": { spawnSync } }), { process: s.p }); return s;
  },
  async step(s, a, to, from) {
    if (a.n === "seed") { put(s, join(ROOT[a.r], ...["skills", "one", a.k === "link" && a.r === "cursor" ? "deep/er" : "deep"].slice(0, a.d)), a.k); return; }
    s.npm = a.npm; s.run = a.run; const links = Object.entries(snapshot(s.root)).filter(([, t]) => t.startsWith("link"));
    const r = quiet(() => attempt(() => s.m.installSkills(s.root)));
    s.result = r.error ? "refused" : r.value ? "yes" : "no"; const after = snapshot(s.root);
    if (s.bad.length) return s.bad[0].replaceAll(s.top, "");
    for (const [p, t] of links) if (after[p] !== t) return `the link ${p} was replaced`;
    if (fs.readdirSync(join(s.top, "tmp")).length) return "the fetched installer is left behind";
    return outsideAsWas(s);
  },
  observe(s) { return { result: s.result, spawned: s.spawned.join() }; },
  expect(st) { return { result: st.result, spawned: st.spawned.join() }; },
  async teardown(s) { s.cleanup(); },
});

const LINKS = ["outdir", "outfile", "nowhere", "inside"];
export default {
  property: "K02",
  assumptions: ["nobody changes the repository while an operation runs; links are symbolic links of a POSIX file system", "every change the code makes is held inside a scratch directory by a stand-in for node:fs"],
  models: [
    {
      name: "safefs", spec: "SafeFs", driver: async () => safefs(await bundle(`${onboardDir}/safe-repo-fs.ts`)),
      runs: ({ tier }) => [
        { name: "paths", cfg: { constants: { Names: set("a", "b"), Deepest: 2, LinkKinds: set("outdir", "nowhere"), Forms: set("plain"), Segments: set("a", "b", "..", "."), Longest: 3, MaxSeeds: tier === "thorough" ? 3 : 2, MaxOps: 1 }, invariants: ["NothingBehind", "InsideOnly"], properties: ["LinksStay", "AllOrNothing", "OneChange"] }, maxPaths: tier === "thorough" ? 60000 : 16000, walks: 100 },
        { name: "spellings", cfg: { constants: { Names: set("a", "b", "..a"), Deepest: 2, LinkKinds: set(...LINKS), Forms: set("plain", "dot", "slash", "double", "backslash", "absolute"), Segments: set("a", "..", "..a"), Longest: 3, MaxSeeds: 1, MaxOps: 1 }, invariants: ["NothingBehind", "InsideOnly"], properties: ["LinksStay", "AllOrNothing", "OneChange"] }, maxPaths: tier === "thorough" ? 60000 : 16000, walks: 100 },
        { name: "sequences", cfg: { constants: { Names: set("a", "b"), Deepest: 3, LinkKinds: set("outdir"), Forms: set("plain"), Segments: set("a", "b"), Longest: 3, MaxSeeds: 1, MaxOps: 2 }, invariants: ["NothingBehind", "InsideOnly"], properties: ["LinksStay", "AllOrNothing", "OneChange"] }, maxPaths: tier === "thorough" ? 60000 : 6000, walks: 100 },
      ],
    },
    {
      name: "onboard", spec: "Onboard", driver: async () => onboard(await bundle(`${onboardDir}/materialize-workspace.ts`)),
      runs: ({ tier }) => [{ name: "workspace", cfg: { constants: { Dirs: set("ws", "claude", "agents", "docs", "howto", "snippets"), Files: set("wsignore", "claudemd", "settings", "agent", "doc", "nested", "snippet", "context1", "context2"), LinkKinds: set("outdir", "outfile", "nowhere"), Ignores: set("absent", "dir", ...Object.keys(GITIGNORE)), Templates: set("complete", "noagent", "nodoc"), MaxSeeds: tier === "thorough" ? 4 : 2, MaxOps: 2 }, invariants: ["IgnoredOnce"], properties: ["NoLinkUsed", "Unmoved"], next: "Go" }, maxPaths: tier === "thorough" ? 6000 : 2000, walks: 100 }],
    },
    {
      name: "skills", spec: "Skills", driver: async () => skills(await bundle(`${onboardDir}/setup-agent-integrations.ts`)),
      runs: ({ tier }) => [{ name: "installer", cfg: { constants: { Roots: set("claude", "agents", "cursor"), Depths: set(0, 1, 2, 3), Kinds: set("link", "file", "skill"), Npms: set("ok", "fails", "incomplete", "missing"), Runs: set("ok", "fails", "missing", "plants", "plantsfails"), MaxSeeds: 2, MaxInstalls: tier === "thorough" ? 2 : 1 }, invariants: ["FetchedFirst", "YesOnlyIfRun"], properties: ["NotStarted"] }, maxPaths: tier === "thorough" ? 20000 : 5000, walks: 100 }],
    },
  ],
};
