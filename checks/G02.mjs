import childProcess, { execFileSync } from "node:child_process";
import { mkdirSync, mkdtempSync, rmSync, writeFileSync } from "node:fs";
import { tmpdir } from "node:os"; import { join, resolve } from "node:path";
import { bundle } from "../lib/bundle.mjs";
import { CONFIGS, configure } from "../harness/git-config.mjs";
import { parseDiffModule } from "../harness/parse-diff.mjs";

const LONG = "x".repeat(400_000);
class Exit extends Error {}
/** The command's surroundings: its client, which records what it is asked, and its process. */
const surroundings = (s) => ({
  "@alwaysmeticulous/client": { __esModule: true, resolveApiTokenWithOAuth: async () => "token", isOAuthJwt: () => false, isFetchError: () => false, createClientWithOAuth: async () => ({}), getProject: async () => ({ id: "p1" }),
    getRelevantSessions: async (_c, q) => { s.asked.push(q); return { testCases: [] }; } },
  "@alwaysmeticulous/sentry": { __esModule: true, SENTRY_FLUSH_TIMEOUT: { toMillis: () => 0 } }, "@sentry/node": { __esModule: true, getActiveSpan: () => undefined, flush: async () => true, captureException() {}, setContext() {} },
});
const driver = (inst, command) => ({
  async setup(init) {
    const s = { dir: mkdtempSync(join(tmpdir(), "verif-g02-")), n: 0, big: init.big }; s.repo = join(s.dir, "repo"); mkdirSync(join(s.repo, "src"), { recursive: true });
    s.cwd = init.where === "sub" ? join(s.repo, "src") : s.repo;
    s.env = { PATH: process.env.PATH, HOME: s.dir, GIT_CONFIG_GLOBAL: "/dev/null", GIT_CONFIG_NOSYSTEM: "1", GIT_CEILING_DIRECTORIES: s.dir, LC_ALL: "C", ...Object.fromEntries(["AUTHOR", "COMMITTER"].flatMap((r) => [[`GIT_${r}_NAME`, "n"], [`GIT_${r}_EMAIL`, "e@example"]])) };
    s.git = (...a) => execFileSync("git", a, { cwd: s.repo, env: s.env, encoding: "utf8", stdio: ["pipe", "pipe", "pipe"] }).trim();
    s.texts = {}; for (const f of Object.keys(init.w)) s.texts[f] = init.w[f].map((i) => this.line(s, `${f} ${i}`));
    s.git("init", "-q", "-b", "main"); this.write(s); s.git("add", "."); s.git("commit", "-qm", "base"); s.base = s.git("rev-parse", "HEAD"); configure(s.repo, init.conf, s.git);
    const at = (o) => ({ ...o, cwd: resolve(s.cwd, o?.cwd ?? "."), env: s.env });
    const cp = { ...childProcess, exec: (c, o, cb) => childProcess.exec(c, at(o), cb), execFile: (f, a, o, cb) => childProcess.execFile(f, a, at(o), cb), execSync: (c, o) => childProcess.execSync(c, at(o)), execFileSync: (f, a, o) => childProcess.execFileSync(f, a, at(o)), spawn: (f, a, o) => childProcess.spawn(f, a, at(o)) };
    cp.default = cp;
    if (command) {
      s.git("checkout", "-q", "-b", "topic"); s.git("update-ref", "refs/remotes/origin/main", s.base); s.git("symbolic-ref", "refs/remotes/origin/HEAD", "refs/remotes/origin/main"); s.asked = []; s.exits = [];
      const proc = Object.create(process, { exit: { value: (c) => { s.exits.push(c); throw new Exit("exit"); } }, cwd: { value: () => s.cwd } });
      s.mod = inst({ child_process: cp, "node:child_process": cp, "parse-diff": parseDiffModule, ...surroundings(s) }, { process: proc });
      return s;
    }
    s.mod = inst({ child_process: cp, "node:child_process": cp, "parse-diff": parseDiffModule });
    return s;
  },
  line: (s, t) => `${t} ${s.big ? LONG : ""}`,
  write(s, f) { for (const [k, v] of Object.entries(s.texts)) if (!f || f === k) writeFileSync(join(s.repo, k), v.map((x) => `${x}\n`).join("")); },
  async step(s, a) {
    const t = s.texts[a.f]; const fresh = () => this.line(s, `new ${++s.n}`);
    if (a.n === "delete") t.splice(a.i - 1, 1);
    else if (a.n === "add") t.splice(a.i, 0, fresh());
    else if (a.n === "replace") t[a.i - 1] = fresh();
    else if (a.n === "unlink") { delete s.texts[a.f]; rmSync(join(s.repo, a.f)); }
    else if (a.n === "create") { s.texts[a.f] = [fresh(), fresh()]; this.write(s, a.f); s.git("add", a.f); }
    else if (a.n === "commit") { s.git("commit", "-qam", "local"); return; }
    if (s.texts[a.f]) this.write(s, a.f);
  },
  async observe(s, to) {
    let r;
    if (command) {
      const run = async (o) => { s.asked.length = s.exits.length = 0; const quiet = console.error; console.error = () => {}; try { await s.mod.relevantSessionsCommand.handler({ showMaybeRelevant: false, includeSuperfluousSessions: false, outputDir: "out", ...o }); } catch (e) { if (!(e instanceof Exit)) throw e; } finally { console.error = quiet; } return s.asked[0]; };
      const q = await run({}); if (!q || s.exits[0] !== 0) return [`the command fails with ${s.exits[0]}`];
      if (q.projectId !== "p1" || q.baseCommitSha !== s.base) return [`asked about ${q.projectId} ${q.baseCommitSha}`];
      r = q.editedFilesWithLines;
      if (to.committed) {
        const since = await run({ startingPointSha: s.git("rev-parse", "HEAD") }); if (since?.baseCommitSha !== s.base) return [`changes since a commit are asked about with the base ${since?.baseCommitSha}`];
        const got = since.editedFilesWithLines.map((x) => x.filePath).sort().join(" "); const want = Object.keys(to.want).filter((f) => to.want[f].since).map((f) => `/${f}`).sort().join(" ");
        if (got !== want) return [`since the commit ${got} changed instead of ${want}`];
      }
    } else try { r = s.mod.parseGitDiffToEditedFiles(await s.mod.getGitDiff(s.base)); } catch (e) { return [`fails: ${String(e?.message).slice(0, 200)}`]; }
    const bad = [];
    for (const x of r) if (!Object.keys(to.want).some((f) => x.filePath === `/${f}`)) bad.push(`also ${x.filePath}`);
    for (const [f, want] of Object.entries(to.want)) {
      const got = r.filter((x) => x.filePath === `/${f}`);
      if (!want.changed) { if (got.length) bad.push(`${f} did not change`); continue; }
      if (got.length !== 1) { bad.push(`${f} is reported ${got.length} times`); continue; }
      const lines = new Set(); let last = 0;
      for (const [a, b] of got[0].editedRanges) { if (!(Number.isInteger(a) && a > last && b >= a)) bad.push(`${f}: ranges ${JSON.stringify(got[0].editedRanges)}`); last = b; for (let i = a; i <= b; i++) lines.add(i); }
      for (const i of want.must) if (!lines.has(i)) bad.push(`${f}: line ${i} is missing`);
      for (const i of lines) if (!want.may.includes(i)) bad.push(`${f}: line ${i} was not edited`);
    }
    return bad;
  },
  expect: () => [],
  async teardown(s) { rmSync(s.dir, { recursive: true, force: true }); },
});
const set = (...a) => `{${a.map((x) => (typeof x === "string" ? `"${x}"` : x)).join(", ")}}`;
const INV = { invariants: ["Ordered", "EditsAreSeen", "NotMoreThanChanged"], properties: ["CommitsChangeNothing"] };
export default {
  property: "G02",
  assumptions: ["the parse-diff package, which is not installed here, is replaced by a double that follows its documentation; git itself is the installed one"],
  models: [{
    name: "command", spec: "LocalEdits",
    driver: async () => driver(await bundle("cli/src/commands/local/relevant-sessions.command.ts", { externalOwn: ["@alwaysmeticulous/client", "@alwaysmeticulous/sentry"] }), true),
    runs: ({ tier }) => [{ name: "command", cfg: { constants: { Files: set("a.js", "src/b.js"), N: 2, News: set("new.js"), MaxEdits: 3, Wheres: set("root", "sub"), Bigs: "{FALSE}", Confs: set("plain"), Acts: set("replace", "add", "unlink", "create", "commit") }, ...INV }, maxPaths: tier === "thorough" ? 3000 : 400, walks: tier === "thorough" ? 500 : 50 }],
  }, {
    name: "edits", spec: "LocalEdits",
    driver: async () => driver(await bundle("cli/src/commands/local/get-edited-files.utils.ts")),
    runs: ({ tier }) => {
      const t = tier === "thorough"; const base = { Files: set("a.js"), N: 6, News: "{}", MaxEdits: 3, Wheres: set("root"), Bigs: "{FALSE}", Confs: set("plain"), Acts: set("delete", "add", "replace") };
      return [
        { name: "lines", cfg: { constants: { ...base, N: t ? 7 : 6, MaxEdits: t ? 4 : 3 }, ...INV }, maxPaths: t ? 12000 : 1500, walks: t ? 1000 : 100 },
        { name: "long", cfg: { constants: { ...base, N: 12, MaxEdits: t ? 3 : 2 }, ...INV }, maxPaths: t ? 6000 : 1100, walks: 0 },
        { name: "files", cfg: { constants: { ...base, Files: set("a.js", "src/b.js"), N: 3, News: set("new.js"), Wheres: set("root", "sub"), Acts: set("delete", "add", "replace", "unlink", "create", "commit") }, ...INV }, maxPaths: t ? 8000 : 800, walks: t ? 1000 : 100 },
        { name: "config", cfg: { constants: { ...base, N: 3, Files: set("src/b.js"), MaxEdits: t ? 3 : 1, Confs: set(...CONFIGS), Wheres: set("root", "sub"), Acts: set("delete", "add", "replace", "unlink") }, ...INV }, maxPaths: t ? 3000 : 200, walks: 0 },
        { name: "big", cfg: { constants: { ...base, N: 4, MaxEdits: 2, Bigs: "{TRUE}", Acts: set("delete", "replace", "unlink") }, ...INV }, maxPaths: 40, walks: 0 },
      ];
    },
  }],
};
