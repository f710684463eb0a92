import childProcess, { execFileSync } from "node:child_process";
import { mkdirSync, mkdtempSync, readFileSync, rmSync, writeFileSync, existsSync } from "node:fs";
import { tmpdir } from "node:os"; import { join, relative, resolve } from "node:path";
import { bundle } from "../lib/bundle.mjs";
import { CONFIGS, configure } from "../harness/git-config.mjs";

const MEG = "x".repeat(1023) + "\n";
/** what a file holds: ends in empty lines, so that a diff does too */
const text = (n, big) => `line ${n}\nspaces  \n\n${big ? MEG.replaceAll("x", String.fromCharCode(97 + n)).repeat(700) : ""}last ${n}\n\n\n`;
const numberIn = (s) => { const n = /^line (\d+)/.exec(s ?? "")?.[1]; return n === undefined ? null : Number(n); };
class Exit extends Error {}

const driver = (inst) => ({
  async setup(init) {
    const { cfg } = init; const s = { cfg, dir: mkdtempSync(join(tmpdir(), "verif-g01-")), sha: {}, time: 1_700_000_000 };
    s.clone = join(s.dir, "clone"); s.bare = join(s.dir, "origin.git"); mkdirSync(join(s.dir, "home"));
    s.env = { PATH: process.env.PATH, HOME: join(s.dir, "home"), GIT_CONFIG_GLOBAL: "/dev/null", GIT_CONFIG_NOSYSTEM: "1", GIT_CEILING_DIRECTORIES: s.dir, GIT_TERMINAL_PROMPT: "0", LC_ALL: "C",
      ...Object.fromEntries(["AUTHOR", "COMMITTER"].flatMap((r) => [[`GIT_${r}_NAME`, "n"], [`GIT_${r}_EMAIL`, "e@example"]])) };
    s.git = (dir, args, { input, env } = {}) => { s.time += 60; return execFileSync("git", args, { cwd: dir, env: { ...s.env, GIT_AUTHOR_DATE: `${s.time} +0000`, GIT_COMMITTER_DATE: `${s.time} +0000`, ...env }, input, encoding: "utf8", stdio: ["pipe", "pipe", "pipe"], maxBuffer: 1 << 28 }); };
    s.cwd = cfg.where === "sub" ? join(s.clone, "lib") : s.clone;
    if (cfg.repo === "none") mkdirSync(s.cwd, { recursive: true });
    else if (cfg.repo === "unborn") { mkdirSync(s.cwd, { recursive: true }); s.git(s.clone, ["init", "-q", "-b", "main"]); }
    else {
      s.git(s.dir, ["init", "-q", "--bare", "-b", cfg.def, s.bare]);
      s.sha[1] = this.commitTo(s, [], 0, 0); s.git(s.bare, ["update-ref", `refs/heads/${cfg.def}`, s.sha[1]]);
      s.git(s.dir, ["clone", "-q", s.bare, s.clone]);
      if (cfg.known === "remote" || cfg.known === "no") s.git(s.clone, ["remote", "set-head", "origin", "-d"]);
      configure(s.clone, cfg.conf, (...a) => s.git(s.clone, a));
    }
    const at = (o) => ({ ...o, cwd: resolve(s.cwd, o?.cwd ?? "."), env: s.env });
    const cp = { ...childProcess, exec: (c, o, cb) => childProcess.exec(c, at(o), cb), execFile: (f, a, o, cb) => childProcess.execFile(f, a, at(o), cb), execSync: (c, o) => childProcess.execSync(c, at(o)), execFileSync: (f, a, o) => childProcess.execFileSync(f, a, at(o)), spawn: (f, a, o) => childProcess.spawn(f, a, at(o)) };
    cp.default = cp;
    const proc = Object.create(process, { exit: { value: () => { throw new Exit("exit"); } }, cwd: { value: () => s.cwd } });
    const quiet = console.error; s.unquiet = () => { console.error = quiet; }; console.error = () => {};
    const { a, b } = inst({ child_process: cp, "node:child_process": cp }, { process: proc }); s.mod = { ...a, ...b };
    return s;
  },
  /** a commit of a tree made in the origin, which shares its objects with nobody until they are fetched */
  commitTo(s, parents, m, t) {
    const blob = (n) => s.git(s.bare, ["hash-object", "-w", "--stdin"], { input: text(n, s.cfg.big) }).trim();
    const lib = s.git(s.bare, ["mktree"], { input: `100644 blob ${blob(t)}\tt.js\n` }).trim();
    const ign = s.git(s.bare, ["hash-object", "-w", "--stdin"], { input: "*.ignored\n" }).trim();
    const tree = s.git(s.bare, ["mktree"], { input: `100644 blob ${ign}\t.gitignore\n040000 tree ${lib}\tlib\n100644 blob ${blob(m)}\tm.js\n` }).trim();
    return s.git(s.bare, ["commit-tree", tree, ...parents.flatMap((p) => ["-p", p]), "-m", "upstream"]).trim();
  },
  async step(s, a, to, from) {
    const t = join(s.clone, "lib", "t.js"); const git = (...x) => s.git(s.clone, x); const { cfg } = s; const last = to.c.length;
    /** the origin, when it cannot be reached */
    const away = (f) => { git("remote", "set-url", "origin", join(s.dir, "gone.git")); try { return f(); } finally { git("remote", "set-url", "origin", s.bare); } };
    if (a.n === "upstream") { const c = to.c[last - 1]; s.sha[last] = this.commitTo(s, c.p.map((p) => s.sha[p]), c.m, c.t); s.git(s.bare, ["update-ref", `refs/heads/${cfg.def}`, s.sha[last]]); }
    else if (a.n === "upmerge") { git("push", "-q", "origin", `refs/heads/${cfg.topic}:refs/pull/1`, "-f"); const c = to.c[last - 1]; s.sha[last] = this.commitTo(s, c.p.map((p) => s.sha[p]), c.m, c.t); s.git(s.bare, ["update-ref", `refs/heads/${cfg.def}`, s.sha[last]]); }
    else if (a.n === "commit") { git("commit", "-qam", "change"); s.sha[last] = git("rev-parse", "HEAD").trim(); }
    else if (a.n === "branch") git("checkout", "-q", "--no-track", "-b", cfg.topic);
    else if (a.n === "def") git("checkout", "-q", cfg.def);
    else if (a.n === "detach") git("checkout", "-q", "--detach");
    else if (a.n === "merge") { git("merge", "-q", "--no-ff", "--no-edit", `origin/${cfg.def}`); s.sha[last] = git("rev-parse", "HEAD").trim(); }
    else if (a.n === "fetch") git("fetch", "-q", "origin");
    else if (a.n === "edit") writeFileSync(t, text(to.wt, cfg.big));
    else if (a.n === "stage") git("add", "lib/t.js");
    else if (a.n === "revert") writeFileSync(t, text(to.wt, cfg.big));
    else if (a.n === "untrack") {
      if (a.f === "inside") writeFileSync(join(s.cwd, "new in.js"), "new"); else if (a.f === "outside") { const d = cfg.where === "sub" ? s.clone : join(s.clone, "other"); mkdirSync(d, { recursive: true }); writeFileSync(join(d, "outside.js"), "new"); }
      else if (a.f === "ignored") writeFileSync(join(s.cwd, "x.ignored"), "new");
      else for (let i = 0; i < 5200; i++) writeFileSync(join(s.cwd, `many-${i}-${"n".repeat(200)}`), "");
    } else if (a.n === "ask") {
      s.got = undefined; const before = this.snapshot(s);
      const go = async () => {
        const none = { commitSha: undefined, baseSha: undefined, gitDiffOutput: undefined };
        const head = from.cfg.repo === "clone" ? s.sha[from.hc] : "c0ffee";
        if (a.q === "given") {
          const r = [await s.mod.resolveBuildCommitSha({ commitSha: "c0ffee" }), await s.mod.resolveComparisonOptions({ ...none, baseSha: "ba5e", gitDiffOutput: "diff" }), await s.mod.resolveGitOptions({ commitSha: "c0ffee", baseSha: "ba5e", gitDiffOutput: "diff", repoDirectory: undefined })];
          return JSON.stringify(r) === JSON.stringify([{ commitSha: "c0ffee", source: "provided" }, { baseSha: "ba5e", gitDiffOutput: "diff", headIsEphemeral: false }, { commitSha: "c0ffee", baseSha: "ba5e", gitDiffOutput: "diff" }]) ? { ok: true } : { ok: true, given: r };
        }
        if (a.q === "build") { const r = await s.mod.resolveBuildCommitSha({ commitSha: undefined }); return { ok: true, ...this.commit(s, r.commitSha), source: r.source }; }
        if (a.q === "lookup") return { ok: true, ...this.commit(s, await s.mod.resolveHeadCommitShaForLookup()) };
        if (a.q === "ci") { const r = await s.mod.resolveGitOptions({ ...none, repoDirectory: s.cwd }); return { ok: true, of: this.id(s, r.commitSha), base: this.id(s, r.baseSha), tree: this.applied(s, r.baseSha, r.gitDiffOutput) }; }
        const r = await s.mod.resolveComparisonOptions({ ...none, ...(a.q === "compareBase" ? { baseSha: s.sha[1] ?? "ba5e" } : {}), ...(a.q === "compareHead" ? { commitSha: head } : {}) });
        const c = this.commit(s, r.head); const tree = this.applied(s, r.baseSha, r.gitDiffOutput);
        return { ok: true, of: c.of, base: this.id(s, r.baseSha), tree: JSON.stringify(tree) === JSON.stringify(c.tree) ? tree : { head: c.tree, diff: tree }, ephemeral: r.headIsEphemeral };
      };
      const ask = async () => { try { s.got = await go(); } catch (e) {
        const m = String(e?.message); const names = [["inside", "new in.js"], ["outside", "outside.js"], ["many", "many-"]].filter(([f]) => from.unt[f]).map(([, n]) => n);
        s.got = { ok: false, why: e instanceof Exit ? "exit" : e?.name === "CliUserError" || /CliUserError/.test(e?.constructor?.name) ? m.startsWith("Untracked") ? (names.some((n) => m.includes(n)) ? "untracked" : m) : m.startsWith("Working tree has uncommitted") ? "dirty" : m.includes("base SHA") ? "base" : m.includes("determine") ? "head" : m : e?.stack }; } };
      if (cfg.repo === "clone" && !["symref", "remote"].includes(cfg.known)) { git("remote", "set-url", "origin", join(s.dir, "gone.git")); try { await ask(); } finally { git("remote", "set-url", "origin", s.bare); } } else await ask();
      const after = this.snapshot(s); if (after !== before) return `asking changed the clone: ${before.slice(0, 400)} -> ${after.slice(0, 400)}`;
    }
  },
  id: (s, sha) => Number(Object.entries(s.sha).find(([, x]) => x === sha)?.[0] ?? 0),
  /** which commit it is, and the files it holds */
  commit(s, sha) {
    const list = s.git(s.clone, ["ls-tree", "-r", "--name-only", sha]).trim().split("\n").join(" ");
    return { of: this.id(s, sha), tree: list === ".gitignore lib/t.js m.js" ? ["m.js", "lib/t.js"].map((f) => this.whole(s, s.git(s.clone, ["cat-file", "blob", `${sha}:${f}`]))) : list };
  },
  whole(s, x) { const n = numberIn(x); return n !== null && x === text(n, s.cfg.big) ? n : x.slice(0, 60); },
  /** what the base becomes by the diff */
  applied(s, base, diff) {
    const env = { GIT_INDEX_FILE: join(s.dir, "index") }; rmSync(join(s.dir, "index"), { force: true });
    s.git(s.clone, ["read-tree", base], { env });
    if (diff !== "") { try { s.git(s.clone, ["apply", "--cached", "--whitespace=nowarn", "-"], { env, input: diff }); } catch (e) { return `cannot be applied: ${String(e.stderr).slice(0, 200)}`; } }
    const tree = s.git(s.clone, ["write-tree"], { env }).trim();
    return this.commit(s, tree).tree;
  },
  /** all that asking must leave alone */
  snapshot(s) {
    if (s.cfg.repo === "none") return "";
    const git = (...x) => { try { return s.git(s.clone, x, { env: { GIT_OPTIONAL_LOCKS: "0" } }); } catch (e) { return `${e.status}`; } };
    const t = join(s.clone, "lib", "t.js");
    return [git("rev-parse", "--symbolic-full-name", "HEAD"), git("for-each-ref", "refs/heads", "refs/tags", "refs/stash"), git("ls-files", "-s"), git("status", "--porcelain", "-uall").slice(0, 2000), existsSync(t) ? numberIn(readFileSync(t, "utf8")) : ""].join("|");
  },
  observe(s, to, a) {
    if (a?.n !== "ask") return null;
    return s.got;
  },
  expect(m, a, s) {
    if (a?.n !== "ask") return null;
    const r = m.res; if (!r.ok) return { ok: false, why: r.why };
    if (r.q === "given") return { ok: true };
    const base = r.base ? { base: r.base.includes(s.got?.base) ? s.got.base : r.base[0] } : {};
    return { ok: true, of: r.of, ...base, tree: r.tree, ...(r.q === "build" ? { source: r.of === 0 ? "local-ephemeral" : "local" } : {}), ...(r.q.startsWith("compare") ? { ephemeral: r.of === 0 } : {}) };
  },
  async teardown(s) { s.unquiet(); rmSync(s.dir, { recursive: true, force: true }); },
});
const set = (...a) => `{${a.map((x) => (typeof x === "string" ? `"${x}"` : x)).join(", ")}}`;
const INV = { invariants: ["FaithfulCommit", "NothingLeftOut", "BaseIsShared"], properties: ["AskingChangesNothing"] };
export default {
  property: "G01",
  assumptions: ["git itself is the installed one; the origin is a repository on the same disk"],
  models: [{
    name: "git", spec: "GitRun",
    driver: async () => driver(await bundle({ a: "cli/src/commands/agent/build-git-options.ts", b: "cli/src/commands/ci/resolve-git-options.ts" })),
    runs: ({ tier }) => {
      const t = tier === "thorough"; const ALL = ["given", "build", "lookup", "compare", "compareHead", "compareBase", "ci"];
      const base = { Defaults: set("main"), Knowns: set("symref"), Wheres: set("root"), Topics: set("topic"), Repos: set("clone"), Bigs: "{FALSE}", Confs: set("plain"), Asks: set(...ALL), Files: "{}", Acts: "{}", Resume: "FALSE", MaxCommits: 4, MaxSteps: 4 };
      return [
        ...[["tree", 3, 4000], ["edits", t ? 5 : 4, t ? 6000 : 400]].map(([name, steps, maxPaths]) =>
          ({ name, cfg: { constants: { ...base, Wheres: set("root", "sub"), Files: set("inside", "outside", "ignored"), Acts: set("edit", "stage", "revert", "untrack", "commit"), MaxSteps: steps, MaxCommits: 2 }, ...INV }, maxPaths, walks: 0 })),
        ...[["history", t ? 6 : 5, 4000, 0], ["long", t ? 8 : 7, t ? 4000 : 400, t ? 500 : 100]].map(([name, steps, maxPaths, walks]) =>
          ({ name, cfg: { constants: { ...base, Resume: name === "long" ? "TRUE" : "FALSE", Asks: set("compare", "ci"), Acts: set("branch", "edit", "commit", "upstream", "upmerge", "merge", "fetch", "def", "detach"), MaxSteps: steps, MaxCommits: t ? 5 : 4 }, ...INV }, maxPaths, walks })),
        { name: "names", cfg: { constants: { ...base, Defaults: set("main", "master", "trunk"), Knowns: set("symref", "remote", "no", "stale"), Topics: set("topic", "master"), Asks: set("compare", "compareHead", "ci"), Acts: set("branch", "upstream", "detach"), MaxSteps: 2, MaxCommits: 2 }, ...INV }, maxPaths: 900, walks: 0 },
        { name: "config", cfg: { constants: { ...base, Confs: set(...CONFIGS), Wheres: set("root", "sub"), Files: set("inside", "outside"), Acts: set("edit", "stage", "untrack", "branch", "commit"), Asks: set("compare", "ci"), MaxSteps: t ? 3 : 2, MaxCommits: 2 }, ...INV }, maxPaths: t ? 4000 : 500, walks: 0 },
        { name: "odd", cfg: { constants: { ...base, Repos: set("clone", "none", "unborn"), Bigs: "{FALSE, TRUE}", Files: set("many"), Acts: set("edit", "untrack"), Asks: set("build", "compare", "ci", "lookup"), MaxSteps: 1 }, ...INV }, maxPaths: 60, walks: 0 },
      ];
    },
  }],
};
