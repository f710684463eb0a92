import childProcess, { execFileSync } from "node:child_process";
import fs, { mkdirSync, mkdtempSync, rmSync, writeFileSync, symlinkSync, existsSync, lstatSync } from "node:fs";
import { tmpdir } from "node:os"; import { join, sep } from "node:path";
import { bundle } from "../lib/bundle.mjs";
import { containedFs, snapshot } from "../harness/contained-fs.mjs";

const at = (s, p) => join(s.sessions, p);
const driver = (inst) => ({
  async setup(init) {
    const s = { dir: fs.realpathSync(mkdtempSync(join(tmpdir(), "verif-w03-"))), asked: [], bad: [], init }; s.data = join(s.dir, "data"); s.sessions = join(s.data, "debug-sessions"); s.repo = join(s.dir, "repo"); s.other = join(s.dir, "other");
    for (const d of [s.data, s.repo, s.other]) mkdirSync(d); writeFileSync(join(s.data, "keep"), "k"); mkdirSync(join(s.other, "deep")); writeFileSync(join(s.other, "deep", "keep"), "k");
    s.env = { PATH: process.env.PATH, HOME: s.dir, GIT_CONFIG_GLOBAL: "/dev/null", GIT_CONFIG_NOSYSTEM: "1", GIT_CEILING_DIRECTORIES: s.dir, LC_ALL: "C", ...Object.fromEntries(["AUTHOR", "COMMITTER"].flatMap((r) => [[`GIT_${r}_NAME`, "n"], [`GIT_${r}_EMAIL`, "e@example"]])) };
    s.git = (...a) => execFileSync("git", a, { cwd: s.repo, env: s.env, encoding: "utf8", stdio: ["pipe", "pipe", "pipe"] }).trim();
    s.git("init", "-q", "-b", "main"); writeFileSync(join(s.repo, "f"), "f"); s.git("add", "."); s.git("commit", "-qm", "base"); writeFileSync(join(s.repo, "mine"), "not committed");
    const cwd = init.from === "repo" ? s.repo : s.other;
    // only git is run, and only below the scratch folder
    const git = (c, o) => { if (!/^git [^;&|`$<>]*$/.test(c) || [...c.matchAll(/"([^"]*)"/g)].some(([, p]) => !p.startsWith(s.dir + sep))) { s.bad.push(`runs ${c}`); throw new Error("contained"); } return childProcess.execSync(c, { ...o, cwd: o?.cwd?.startsWith(s.dir + sep) ? o.cwd : cwd, env: s.env }); };
    const cp = { execSync: git, execFileSync: (f, a, o) => { if (f !== "git") { s.bad.push(`runs ${f}`); throw new Error("contained"); } return childProcess.execFileSync(f, a, { ...o, cwd: o?.cwd?.startsWith(s.dir + sep) ? o.cwd : cwd, env: s.env }); } }; cp.default = cp; cp.__esModule = true;
    s.contained = containedFs(s.dir); const own = s.contained.fs; const rm = own.rmSync;
    const stuck = (p) => [...(s.stuck ?? [])].some((w) => String(p) === at(s, w) || String(p).startsWith(at(s, w) + sep));
    own.rmSync = (p, o) => { if (stuck(p)) throw Object.assign(new Error("EBUSY: it is in use"), { code: "EBUSY" }); return rm(p, o); };
    const inquirer = { prompt: async (qs) => { const q = [].concat(qs)[0]; s.asked.push(q.type); const a = s.answers;
      if (q.type === "list") return { [q.name]: a.q === "cancel" ? "cancel" : a.q === "select" ? "select" : "all" };
      if (q.type === "confirm") return { [q.name]: a.q === "yes" };
      return { [q.name]: q.choices.filter((c) => a.s.some((w) => c.name.startsWith(`${w} `))).map((c) => c.value) }; } };
    s.mod = inst({ fs: own, "node:fs": own, "fs/promises": s.contained.promises, child_process: cp, "node:child_process": cp, inquirer: { __esModule: true, default: inquirer, ...inquirer } }, { process: Object.create(process, { env: { value: { ...s.env, METICULOUS_DIR: s.data } }, cwd: { value: () => cwd } }) });
    return s;
  },
  async step(s, a, to) {
    s.stuck = to.stuck;
    if (a.n === "make") {
      mkdirSync(s.sessions, { recursive: true }); const p = at(s, a.p);
      if (a.k === "file") writeFileSync(p, "kept"); else if (a.k === "link") symlinkSync(s.other, p);
      else { mkdirSync(join(p, "debug-data"), { recursive: true }); writeFileSync(join(p, "debug-data", "logs"), "l".repeat(2000));
        if (a.k === "linked") { symlinkSync(s.other, join(p, "debug-data", "elsewhere")); symlinkSync(s.repo, join(p, "project-repo")); }
        if (a.k === "own") { mkdirSync(join(p, "project-repo")); writeFileSync(join(p, "project-repo", "f"), "f"); }
        if (a.k === "tree") { if (s.init.from !== "repo") s.git("worktree", "add", "-q", "--detach", join(p, "project-repo"));
          else { const quiet = [console.log, console.warn]; console.log = console.warn = () => {}; const commitSha = s.git("rev-parse", "HEAD"); let r; try { r = s.mod.tree.createProjectWorktree({ debugContext: { commitSha }, workspaceDir: p }); } finally { [console.log, console.warn] = quiet; } if (r !== join(p, "project-repo") || s.bad.length) return `no worktree is made: ${r} ${s.bad}`; }
          writeFileSync(join(p, "project-repo", "built"), "b"); } }
    } else if (a.n === "clean") {
      s.answers = a; s.asked = []; const quiet = [console.log, console.warn]; console.log = console.warn = () => {};
      try { await s.mod.cleanWorkspaces.cleanWorkspaces({ all: a.q === "flag", beforeDelete: s.mod.tree.removeProjectWorktree }); } catch (e) { return `fails: ${e?.stack}`; } finally { [console.log, console.warn] = quiet; }
      if (a.q === "flag" && s.asked.length) return "asks although it was told to delete all";
      if (s.contained.log.escapes.length || s.bad.length) return `reaches outside: ${s.contained.log.escapes} ${s.bad}`;
    }
  },
  observe(s, to) {
    const kind = (p) => { const l = at(s, p); let st; try { st = lstatSync(l); } catch { return "none"; } if (st.isSymbolicLink()) return "link"; if (st.isFile()) return "file";
      const whole = existsSync(join(l, "debug-data", "logs")); if (!whole) return "half deleted"; if (existsSync(join(l, "debug-data", "elsewhere"))) return existsSync(join(l, "project-repo", "mine")) ? "linked" : "half"; return existsSync(join(l, "project-repo", ".git")) ? "tree" : existsSync(join(l, "project-repo", "f")) ? "own" : "plain"; };
    const known = s.git("worktree", "list", "--porcelain").split("\n").filter((x) => x.startsWith("worktree ")).map((x) => x.slice(9)).filter((x) => x !== s.repo);
    const outside = { ...snapshot(s.other) }; const data = fs.readdirSync(s.data).filter((x) => x !== "debug-sessions").join();
    return { ws: Object.fromEntries(Object.keys(to.ws).map((p) => [p, kind(p)])), trees: s.init.from === "repo" ? Object.keys(to.ws).filter((p) => known.includes(join(at(s, p), "project-repo"))) : null,
      outside: JSON.stringify(outside), data, repo: [s.git("status", "--porcelain"), s.git("rev-parse", "--abbrev-ref", "HEAD"), fs.readFileSync(join(s.repo, "f"), "utf8")].join(" "), extra: fs.existsSync(s.sessions) ? fs.readdirSync(s.sessions).filter((x) => !(x in to.ws)) : [] };
  },
  expect: (m) => ({ ws: m.ws, trees: m.from === "repo" ? Object.keys(m.ws).filter((p) => m.trees.includes(p)) : null, outside: JSON.stringify({ deep: "dir", "deep/keep": "file k" }), data: "keep", repo: "?? mine main f", extra: [] }),
  async teardown(s) { rmSync(s.dir, { recursive: true, force: true }); },
});
const set = (...a) => `{${a.map((x) => `"${x}"`).join(", ")}}`;
export default {
  property: "W03",
  assumptions: ["the questions are answered by a double of inquirer; changes outside the scratch folder are refused and noted; git itself is the installed one"],
  models: [{
    name: "clean", spec: "CleanWorkspaces",
    driver: async () => driver(await bundle({ cleanWorkspaces: "cli/src/commands/debug/clean-workspaces.ts", tree: "cli/src/commands/debug/project-worktree.ts" })),
    runs: ({ tier }) => [{ name: "clean", cfg: { constants: { Places: tier === "thorough" ? set("debug-a", "debug-b", "c") : set("debug-a", "c"), Kinds: set("plain", "linked", "tree", "own", "file", "link"), Froms: set("repo", "elsewhere"), Asks: set("flag", "cancel", "no", "yes", "select"), MaxSteps: 4 }, invariants: ["NoTreeIsForgotten"], properties: ["OnlyChosen", "NothingElse"] }, maxPaths: tier === "thorough" ? 8000 : 1200, walks: tier === "thorough" ? 1000 : 100 }],
  }],
};
