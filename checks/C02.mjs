import { mkdtempSync, rmSync, writeFileSync, readFileSync, mkdirSync, readdirSync } from "node:fs";
import { tmpdir } from "node:os"; import { join, dirname } from "node:path";
import { bundle } from "../lib/bundle.mjs";
import { FakeClock, settle } from "../lib/clock.mjs";
import { track, settleUntil } from "../lib/util.mjs";
import { Web, fastZlib, nodeTar, luxon } from "../harness/web.mjs";
import { pLimitModule } from "../harness/net.mjs";
import { Api } from "../harness/api.mjs";

const key = (i) => (i % 3 === 1 ? `org/a b/#${i}?x/%41.json.gz` : `org/s${i}/net.json.gz`);
const meta = (i) => ({ type: i % 2 ? "network-requests" : "dom", sessionId: `session-${(i + 1) >> 1}` });
const raw = (i, k) => ({ many: [{ stageDuringSession: `s${i}.1`, data: { i, t: "\u2713" }, versionNumber: 7, sessionDescription: "d", extra: 1, type: "bogus", sessionId: "bogus" }, { stageDuringSession: "x", data: null }, { stageDuringSession: "x", data: 2, versionNumber: 1 }], none: [], nested: [{ stageDuringSession: `n${i}`, data: [i], versionNumber: 0, sessionDescription: "" }] })[k];
const snaps = (i, k) => raw(i, k).map((r) => ({ ...meta(i), sessionDescription: r.sessionDescription ?? null, stageDuringSession: r.stageDuringSession, data: r.data, versionNumber: r.versionNumber ?? 0 }));
const archive = (i, k) => ({ entries: { nojson: [["a.txt", "hello"]], empty: [], object: [["a.json", '{"a":1}']], corrupt: [["a.json", '[{"a":']], broken: [["a.json", "[]"], null], nested: [["sub/", null], ["dom.json.txt", "[]"], ["sub/dom.json", JSON.stringify(raw(i, k))]] }[k] ?? [["dom.json", JSON.stringify(raw(i, k))]] });
const driver = (inst, mode, n, limit) => ({
  async setup(init) {
    const s = { dir: mkdtempSync(join(tmpdir(), "verif-c02-")), api: new Api(), web: new Web(), nb: init.nb };
    s.env = { TMPDIR: process.env.TMPDIR, METICULOUS_IS_CLOUD_REPLAY: process.env.METICULOUS_IS_CLOUD_REPLAY }; process.env.TMPDIR = s.dir; process.env.METICULOUS_IS_CLOUD_REPLAY = "true";
    s.clock = new FakeClock().install();
    const mod = inst({ ...s.web.doubles(), "p-limit": pLimitModule, "fast-zlib": fastZlib, tar: nodeTar(), luxon, "proper-lockfile": {},
      "extract-zip": { __esModule: true, default: async (path, o) => { const z = JSON.parse(readFileSync(path, "utf8")); for (const e of z.entries) { if (!e) throw new Error("bad archive"); const [name, text] = e; o.onEntry?.({ fileName: name }); const f = join(o.dir, name); if (text === null) mkdirSync(f, { recursive: true }); else { mkdirSync(dirname(f), { recursive: true }); writeFileSync(f, text); } } mkdirSync(o.dir, { recursive: true }); } } });
    const files = (a, b) => Array.from({ length: b - a + 1 }, (_, x) => ({ ...meta(a + x), key: key(a + x) }));
    s.lists = [files(1, init.nb), files(init.nb + 1, n)];
    const base = "https://cdn.example/placeholder/*?Policy=p&Signature=a%2Bb";
    s.out = track(mode === "list" ? mod.downloads.downloadAndAssembleSnapshots({ signedBaseUrl: base, files: s.lists[1], ...(limit === 20 ? {} : { concurrency: limit }) })
      : mod.main.getSnapshotsFromTestRun({ client: s.api, testRunId: "run-1", snapshotTypes: ["dom", "network-requests"] }));
    s.answer = { testRunId: "run-1*", baseTestRunId: "base-1", signedBaseUrl: base, baseSnapshotFiles: s.lists[0], headSnapshotFiles: s.lists[1] };
    await this.calm(s, init); return s;
  },
  id(c) { const u = new URL(c.url); const k = decodeURIComponent(u.pathname.slice(1).replace(/%(?![0-9a-fA-F]{2})/g, "%25")); for (let i = 1; i <= n; i++) { const e = new URL("https://x/"); e.pathname = `/${key(i)}`; if (e.pathname === u.pathname) return u.origin === "https://cdn.example" && u.search === "?Policy=p&Signature=a%2Bb" ? i : c.url; } return `${c.url} ${k}`; },
  going: (st) => st.map((x, i) => [x, i + 1]).filter(([x]) => x === "going").map(([, i]) => i),
  async calm(s, to) { const want = this.going(to.st).join(); await settleUntil(() => (to.out === "error" || s.web.open().map((c) => this.id(c)).sort((a, b) => a - b).join() === want) && (s.out.state === to.out), { maxMs: 6000 }); await settle({ rounds: 3, io: true }); },
  async step(s, act, to, from) {
    if (act.n === "listed") {
      const [c] = s.api.open(); if (!c) return "nothing is asked"; const u = new URL(`https://x/${c.path}`);
      if (u.pathname !== "/test-runs/run-1/custom-check-snapshots-download-urls" || u.searchParams.getAll("snapshotTypes").join() !== "dom,network-requests") return `asked for ${c.path}`;
      if (act.k === "ok") c.answer(s.answer); else c.fail(404);
    } else {
      if (from.out === "error") await settleUntil(() => s.web.open().some((x) => this.id(x) === act.i), { maxMs: 3000 });
      const c = s.web.open().find((x) => this.id(x) === act.i); if (!c) return from.out === "error" ? undefined : `file ${act.i} is not being downloaded`;
      if (act.k === "refused") c.answer(403, {}, "no"); else c.answer(200, {}, Buffer.from(JSON.stringify(archive(act.i, act.k))));
    }
    await this.calm(s, to);
  },
  observe(s, to) {
    const open = s.web.open().map((c) => this.id(c)).sort((a, b) => a - b);
    return { asked: s.api.open().length, out: s.out.state, going: to.out === "error" ? null : open, many: [1, 2].some((l) => open.filter((i) => (i <= s.nb ? 1 : 2) === l).length > limit),
      left: to.out === "ok" ? readdirSync(s.dir).join() : "", value: s.out.state === "ok" ? JSON.stringify(s.out.value) : null };
  },
  expect(m, act, s) {
    const all = (a, b) => m.st.slice(a, b).flatMap((k, x) => snaps(a + x + 1, k));
    return { asked: m.asked ? 1 : 0, out: m.out, going: m.out === "error" ? null : this.going(m.st), many: false, left: "",
      value: m.out !== "ok" ? null : JSON.stringify(mode === "list" ? all(0, n) : { testRunId: "run-1*", baseTestRunId: "base-1", baseSnapshots: all(0, m.nb), headSnapshots: all(m.nb, n) }) };
  },
  async finish(s) {
    s.web.auto.push((c) => (c.answer(404, {}, "over"), true));
    for (let i = 0; i < 10; i++) { for (const c of s.web.open()) c.answer(404, {}, "over"); await settle({ rounds: 4, io: true }); }
    if (!s.api.open().length) { await settleUntil(() => !readdirSync(s.dir).length, { maxMs: 4000 }); const left = readdirSync(s.dir); if (left.length) return `left behind: ${left}`; }
  },
  async teardown(s) {
    for (const c of s.api.open()) c.fail(404); await this.finish(s); s.clock.uninstall();
    for (const [k, v] of Object.entries(s.env)) if (v === undefined) delete process.env[k]; else process.env[k] = v;
    rmSync(s.dir, { recursive: true, force: true });
  },
});
const set = (...a) => `{${a.map((x) => (typeof x === "number" ? x : `"${x}"`)).join(", ")}}`;
const INV = { invariants: ["Bounded", "Complete", "NothingIdle"] };
const BAD = set("refused", "nojson", "empty", "object", "corrupt", "broken");
const model = (name, mode, n, l, splits, extra, paths = 2500) => ({ name, spec: "Snapshots", driver: async () => driver(await bundle({ main: "custom-checks/src/index.ts", downloads: "custom-checks/src/download-snapshots.ts" }), mode, n, l),
  runs: ({ tier }) => [{ name: "all", cfg: { constants: { Mode: `"${mode}"`, Splits: set(...splits), N: n, L: l, Which: '"all"', Good: set("many", "none"), Bad: BAD, MaxBad: tier === "thorough" ? 2 : 1, ...extra }, ...INV }, maxPaths: tier === "thorough" ? 20000 : paths, walks: tier === "thorough" ? 3000 : 50 }] });
export default {
  property: "C02",
  assumptions: ["the API client, the network and zip extraction are replaced by doubles; temporary files are real"],
  models: [
    model("list", "list", 4, 2, [0], {}), model("nothing", "run", 0, 20, [0], { Good: set("many"), Bad: set() }), model("one", "list", 3, 1, [0], { Good: set("many", "none", "nested") }), model("wide", "list", 23, 20, [0], { Good: set("many"), Bad: set("refused"), Which: '"ends"', MaxBad: 1 }, 350),
    model("run", "run", 3, 20, [0, 1, 3], { Good: set("many", "nested") }), model("runwide", "run", 44, 20, [22], { Good: set("many"), Bad: set(), Which: '"ends"', MaxBad: 0 }, 200),
  ],
};
