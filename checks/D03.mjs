import { mkdtempSync, rmSync, writeFileSync, readFileSync, existsSync, mkdirSync, appendFileSync, readdirSync } from "node:fs";
import fsp from "node:fs/promises";
import { tmpdir } from "node:os"; import { join, dirname } from "node:path";
import { bundle } from "../lib/bundle.mjs";
import { FakeClock, settle } from "../lib/clock.mjs";
import { track, settleUntil } from "../lib/util.mjs";
import { Web, fastZlib, nodeTar, luxon } from "../harness/web.mjs";
import { Net, pLimitModule } from "../harness/net.mjs";
import { Api, Locks } from "../harness/api.mjs";

/** Everything around the package: a data directory, the network, zip extraction, locks. */
export function world(inst) {
  const s = { dir: mkdtempSync(join(tmpdir(), "verif-d03-")), web: new Web(), net: new Net(), api: new Api(), locks: new Locks(), marking: false, marked: 0 };
  s.env = process.env.METICULOUS_IS_CLOUD_REPLAY; process.env.METICULOUS_IS_CLOUD_REPLAY = "true";
  s.fetch = globalThis.fetch; globalThis.fetch = s.net.fetch; s.exit = process.exit;
  process.exit = (code) => { throw Object.assign(new Error(`exit ${code}`), { exit: code }); };
  s.clock = new FakeClock().install();
  s.writing = new Set(); s.locks.onRelease = (l) => { for (const f of s.writing) s.locks.bad.push(`${l.path} given back while ${f} is written`); };
  const writeFile = (p, ...a) => { if (!s.marking) { s.writing.add(p); return fsp.writeFile(p, ...a).finally(() => s.writing.delete(p)); } writeFileSync(p, ""); s.marked++; return new Promise(() => {}); };
  s.mod = inst({ ...s.web.doubles(), "p-limit": pLimitModule, "fast-zlib": fastZlib, tar: nodeTar(), luxon, "proper-lockfile": s.locks.module(),
    "fs/promises": { ...fsp, default: fsp, writeFile },
    // an archive here is the JSON of one entry
    "extract-zip": { __esModule: true, default: async (path, o) => {
      const z = JSON.parse(readFileSync(path, "utf8")); const f = join(o.dir, z.name); mkdirSync(dirname(f), { recursive: true });
      o.onEntry?.({ fileName: z.name }); writeFileSync(f, z.bad ? z.content.slice(0, 5) : z.content); await null; if (z.bad) throw new Error("bad archive"); } } });
  s.run = (f) => { const n = s.locks.asked.length; const r = { out: null, lock: null, n }; r.out = track(s.mod.runWithLocalDataDir(s.dir, f)); return r; };
  s.locked = async (r) => { await settleUntil(() => s.locks.asked.length > r.n || r.out.state !== "pending", { maxMs: 10_000 }); r.lock = s.locks.asked[r.n];
    if (!r.lock) return "nothing was claimed"; s.path ??= r.lock.path; if (r.lock.path !== s.path) return "another claim than that of the first caller"; };
  s.abandon = (r) => { for (const c of [...s.web.open(), ...s.net.open(), ...s.api.open()]) { c.open = false; c.dead = true; } s.locks.die(r.lock); r.dead = true; };
  s.close = async (rs) => {
    s.web.auto.unshift((c) => (c.answer(404, {}, "over"), true)); s.net.auto.unshift((c) => (c.answer(404, "over"), true)); s.api.auto.unshift((c) => (c.fail(400), true));
    for (let i = 0; i < 10 && rs.some((r) => !r.dead && r.out.state === "pending"); i++) {
      for (const c of [...s.web.open()]) c.answer(404, {}, "over"); for (const c of s.net.open()) c.answer(404, "over"); for (const c of s.api.open()) c.fail(400);
      for (const l of s.locks.waiting()) s.locks.refuse(l);
      await settle({ rounds: 4, io: true });
    }
    s.clock.uninstall(); globalThis.fetch = s.fetch; process.exit = s.exit;
    if (s.env === undefined) delete process.env.METICULOUS_IS_CLOUD_REPLAY; else process.env.METICULOUS_IS_CLOUD_REPLAY = s.env;
    await settle({ rounds: 2, io: true }); rmSync(s.dir, { recursive: true, force: true });
  };
  return s;
}

const S3 = "https://s3.example/";
const big = (t) => `${t} content `.repeat(40);
// how an artifact is served and where it ends up
const ART = {
  replay: { shots: { plain: "screenshots/s1.png" }, timeline: { key: "timeline", zip: "timeline.json" }, mapped: { key: "mappedCoverage", zip: "mapped.json" }, raw: { key: "rawCoverage", zip: "raw/cov.json" }, assets: { zip: "a.js", at: "snapshotted-assets/a.js" }, podlog: { plain: "app-container-logs.ndjson" },
    shotmeta: { zip: "s1.metadata.json", at: "screenshots/s1.metadata.json" }, diff: { plain: "diffs/base-1/d1.png" }, thumb: { plain: "diffs/base-1/d1.thumb.png" }, css: { zip: "c/1.json", at: "raw-per-screenshot-css-coverage/c/1.json" }, mjs: { zip: "m.json", at: "mapped-per-screenshot-js-coverage/m.json" } },
  testrun: { coverage: { key: "coverage", zip: "coverage.json" }, stats: { key: "coverageStats", zip: "coverage-stats.json" }, coveragePr: { key: "coveragePr", zip: "coverage.pr.json" }, statsPr: { key: "coverageStatsPr", zip: "coverage-stats.pr.json" }, byReplayPr: { key: "coverageByReplayPr", zip: "by/replay.json" }, podA: { pod: ["k/a1", "k/a2"] }, podB: { pod: ["k/b1", "k/b2"] } },
};
const driver = (inst, kind) => {
  const art = ART[kind];
  return {
    async setup() { const s = world(inst); s.who = []; s.all = []; return s; },
    home: (s) => (kind === "replay" ? join(s.dir, "replays", "rep-1") : join(s.dir, "test-runs", "run_1")),
    file(s, t) { const a = art[t]; return join(this.home(s), a.plain ?? a.at ?? a.zip ?? `app-container-logs/${t}.log`); },
    content: (t) => (art[t].pod ? art[t].pod.map(big).join("") : big(t)),
    urls(s, types, c) {
      const on = (t) => types.includes(t); const loc = (t, filePath) => ({ signedUrl: `${S3}${t}?sig=1`, filePath }); const r = {};
      for (const t of types) if (art[t].key) r[art[t].key] = loc(t, `${art[t].key}.zip`);
      if (kind === "replay") {
        r.screenshots = on("shots") && c.params.includeScreenshots !== "false" ? { s1: { image: loc("shots", art.shots.plain) } } : {};
        r.snapshottedAssets = loc("assets", "assets.zip"); if (!on("assets")) delete r.snapshottedAssets;
        if (r.screenshots.s1 && on("shotmeta")) r.screenshots.s1.metadata = loc("shotmeta", "screenshots/s1.metadata.zip");
        if (on("diff") && c.params.includeDiffs !== "false") r.diffs = { "base-1": { s1: { full: loc("diff", art.diff.plain), thumbnail: loc("thumb", art.thumb.plain) } } };
        if (on("css")) r.rawPerScreenshotCssCoverage = loc("css", "css.zip"); if (on("mjs")) r.mappedPerScreenshotJsCoverage = loc("mjs", "mjs.zip");
        r.customCheckSnapshots = { some: { file: loc("custom", "custom.json") } };
        if (on("podlog") && c.params.includeAppContainerLogs === "true") r.appContainerLogs = loc("podlog", art.podlog.plain);
      } else if (on("podA") && c.params.includeAppContainerLogs === "true") r.appContainerLogs = { signedBaseUrl: `${S3}?sig=2`, pods: ["podA", "podB"].filter(on).map((t) => ({ podName: t, chunkKeys: art[t].pod })) };
      return r;
    },
    typeOf: (url) => { const u = new URL(url); const p = u.pathname.slice(1); return Object.keys(art).find((t) => t === p || art[t].pod?.includes(p)) ?? url; },
    flying(s) { return [...s.web.open(), ...s.net.open()].map((c) => this.typeOf(c.url)).sort(); },
    async calm(s, act, to) {
      const going = Object.keys(to.going).filter((t) => to.going[t]).sort().join(); const r = s.who[act.c];
      await settleUntil(() => (to.ph[act.c - 1] === "idle" ? r.out.state !== "pending" : to.ph[act.c - 1] === "files" ? this.flying(s).join() === going : s.api.open().length || r.out.state !== "pending"), { maxMs: 6000 });
      await settle({ rounds: 3, io: true });
    },
    async step(s, act, to, from) {
      const r = s.who[act.c]; const types = Object.keys(from.disk);
      switch (act.n) {
        case "call": {
          const opts = { ...(["exclude", "both"].includes(act.o) ? { excludeFileTypes: new Set(["mappedCoverage"]) } : {}), ...(["best", "both"].includes(act.o) ? { bestEffortFileTypes: new Set(["snapshottedAssets"]) } : act.o === "softer" ? { bestEffortFileTypes: new Set(["rawPerScreenshotCssCoverage", "mappedPerScreenshotJsCoverage"]) } : {}) };
          const n = s.who[act.c] = s.run(() => (kind === "replay" ? s.mod.getOrFetchReplayArchive(s.api, "rep-1", act.s, false, opts) : s.mod.getOrFetchTestRunData(s.api, "run-1", act.s)));
          s.all.push(n); return s.locked(n);
        }
        case "grant": s.locks.grant(r.lock); break;
        case "api": case "api-fails": {
          const [c] = s.api.open(); if (!c) return "nothing was asked of the API";
          const want = kind === "testrun" ? "test-runs/run-1/data" : from.ph[act.c - 1] === "one" ? "replays/rep-1" : "replays/rep-1/download-urls";
          if (c.path !== want || c.method !== "GET") return `asked for ${c.path}`;
          if (act.n === "api-fails") { if (act.k === "gone") c.fail(404); else c.fail(500); break; }
          c.answer(from.ph[act.c - 1] === "one" ? { id: "rep-1", version: "v3" } : (r.data = this.urls(s, types, c)));
          break;
        }
        case "file": case "marking": {
          if (act.n === "marking") s.marking = true;
          const a = art[act.t]; const own = () => [...s.web.open(), ...s.net.open()].find((c) => this.typeOf(c.url) === act.t);
          if (!own()) return `${act.t} is not being downloaded`;
          const k = act.k ?? "ok";
          if (a.pod) {
            const chunks = k === "refused" ? [] : k === "damaged" ? a.pod.slice(0, 1) : a.pod;
            for (const key of chunks) { await settleUntil(own, { maxMs: 6000 }); const c = own(); if (c?.url !== `${S3}${key}?sig=2`) return `chunk ${c?.url} of ${act.t} is fetched`; c.answer(200, big(key)); await settle({ rounds: 2, io: true }); }
            if (k !== "ok") { await settleUntil(own, { maxMs: 6000 }); own()?.answer(403, "no"); }
          } else if (k === "refused") own().answer(404, {}, "no");
          else own().answer(200, {}, Buffer.from(a.plain ? big(act.t) : JSON.stringify({ name: a.zip, content: big(act.t), bad: k === "damaged" })));
          if (act.n === "marking") { await settleUntil(() => s.marked || r.out.state !== "pending", { maxMs: 10_000 }); await settle({ rounds: 2, io: true }); s.marking = false; s.marked = 0; s.abandon(r); return; }
          break;
        }
        case "crash":
          s.abandon(r);
          for (const t of types) if (from.going[t]) { const f = this.file(s, t); mkdirSync(dirname(f), { recursive: true }); (art[t].pod ? appendFileSync : writeFileSync)(f, art[t].pod ? big(art[t].pod[0]) : "part"); }
          return;
      }
      await this.calm(s, act, to);
    },
    observe(s, to) {
      const disk = {}; for (const t of Object.keys(to.disk)) { const f = this.file(s, t); disk[t] = to.disk[t] !== "good" || to.going[t] ? null : !existsSync(f) ? "none" : readFileSync(f, "utf8") === this.content(t) ? "good" : "bad"; }
      return { disk, going: this.flying(s), api: s.api.open().length, bad: s.locks.bad.join(),
        res: to.ph.map((_, i) => { const r = s.who[i + 1]; if (!r) return "none"; if (r.dead) return "crashed"; if (r.out.state !== "ok") return r.out.state;
          const v = r.out.value; return v.fileName !== this.home(s) ? `wrong directory ${v.fileName}` : kind === "testrun" && JSON.stringify(v.data) !== JSON.stringify(r.data) ? "wrong data" : "ok"; }),
        held: to.ph.map((_, i) => { const r = s.who[i + 1]; return r?.lock?.state === "held"; }) };
    },
    expect(m) {
      const disk = {}; for (const t of Object.keys(m.disk)) disk[t] = m.disk[t] !== "good" || m.going[t] ? null : "good";
      return { disk, going: Object.keys(m.going).filter((t) => m.going[t]).sort(), api: m.ph.filter((p) => ["hit", "one", "two"].includes(p)).length, bad: "",
        res: m.ph.map((p, i) => (p === "idle" ? m.res[i] : "pending")), held: m.ph.map((p) => ["hit", "one", "two", "files"].includes(p)) };
    },
    async teardown(s) { await s.close(s.all); },
  };
};

const DOC = (kind, i) => (kind === "replay" ? { id: i, version: "v3", text: "\u2713".repeat(50) } : { id: i, userEvents: { n: [1, 2, { a: null }] }, text: `\u2713 ${kind}`.repeat(50) });
// file names are kept to letters and digits
const safe = (i) => i.replace(/[^a-zA-Z0-9]/g, "_");
const jsonDriver = (inst) => {
  const call = { session: ["getOrFetchRecordedSession", (i) => `sessions/${i}`, (i) => `sessions/${safe(i)}.json`], data: ["getOrFetchRecordedSessionData", (i) => `sessions/${i}/data`, (i) => `sessions/${safe(i)}_data.json`], replay: ["getOrFetchReplay", (i) => `replays/${i}`, (i) => `replays/${i}/${i}.json`] };
  return {
    async setup(init) { const s = world(inst); s.who = []; s.all = []; s.kind = init.kind; return s; },
    async step(s, act, to, from) {
      const r = s.who[act.c];
      if (act.n === "call") { s.path = undefined; const n = s.who[act.c] = s.run(() => s.mod[call[s.kind][0]](s.api, act.i)); n.item = act.i; s.all.push(n); const e = await s.locked(n); if (e) return e;
        const other = s.all.find((o) => o !== n && o.item !== act.i && o.lock.path === n.lock.path) ?? s.all.find((o) => o !== n && o.item === act.i && o.lock.path !== n.lock.path); if (other) return "claims do not go with the documents"; return; }
      if (act.n === "grant") s.locks.grant(r.lock);
      else {
        const c = s.api.open().find((x) => x.path === call[s.kind][1](r.item)); if (!c) return "nothing was asked of the API";
        if (act.k === "crash") { c.open = false; s.locks.die(r.lock); r.dead = true; return; }
        if (act.k === "writing") { s.marking = true; c.answer(DOC(s.kind, r.item)); await settleUntil(() => s.marked || r.out.state !== "pending", { maxMs: 10_000 }); s.marking = false; s.marked = 0; s.locks.die(r.lock); r.dead = true; return; }
        if (act.k === "ok") c.answer(DOC(s.kind, r.item)); else c.fail(act.k === "missing" ? 404 : 500);
      }
      await settleUntil(() => (to.ph[act.c - 1] === "api" ? s.api.open().some((x) => x.path === call[s.kind][1](r.item)) : r.out.state !== "pending"), { maxMs: 8000 });
      await settle({ rounds: 2, io: true });
    },
    observe(s, to) {
      return { api: s.api.open().map((c) => c.path).sort(), held: to.ph.map((_, i) => s.who[i + 1]?.lock?.state === "held"), bad: s.locks.bad.join(),
        res: to.ph.map((_, i) => { const r = s.who[i + 1]; if (!r) return "none"; if (r.dead) return "crashed"; const o = r.out; if (o.state === "error") return o.error.exit ? "exit" : "error"; if (o.state !== "ok") return o.state;
          const f = join(s.dir, call[s.kind][2](r.item)); if (o.value.fileName !== f) return `wrong file ${o.value.fileName}`; const w = JSON.stringify(DOC(s.kind, r.item));
          if (s.kind !== "replay" && JSON.stringify(o.value.data) !== w) return "wrong data"; try { return JSON.stringify(JSON.parse(readFileSync(f, "utf8"))) === w ? "ok" : "wrong contents"; } catch { return "damaged"; } }) };
    },
    expect: (m) => ({ api: m.ph.flatMap((p, i) => (p === "api" ? [call[m.kind][1](m.item[i])] : [])).sort(), held: m.ph.map((p) => p === "api"), bad: "", res: m.ph.map((p, i) => (p === "idle" ? m.res[i] : "pending")) }),
    async teardown(s) { await s.close(s.all); },
  };
};

const BUNDLE = { v1: "first bundle ".repeat(300), v2: "second, longer bundle ".repeat(400) };
const assetDriver = (inst) => ({
  async setup(init) {
    const s = world(inst); s.who = []; s.all = []; s.v = 1; s.base = init.setup === "custom" ? "http://snippets.example:9/x/" : "https://snippet.meticulous.ai/";
    s.saved = ["METICULOUS_PRELOADED_SNIPPETS_DIR", "METICULOUS_SNIPPETS_BASE_URL"].map((k) => [k, process.env[k]]);
    delete process.env.METICULOUS_PRELOADED_SNIPPETS_DIR; delete process.env.METICULOUS_SNIPPETS_BASE_URL;
    s.pre = join(s.dir, "preloaded"); mkdirSync(s.pre);
    if (init.setup === "custom") process.env.METICULOUS_SNIPPETS_BASE_URL = s.base;
    if (init.setup !== "plain" && init.setup !== "untagged") { process.env.METICULOUS_PRELOADED_SNIPPETS_DIR = s.pre; writeFileSync(join(s.pre, init.setup === "lacking" ? "other.cjs" : "bundle.cjs"), "preloaded bundle"); }
    return s;
  },
  async step(s, act, to, from) {
    if (act.n === "publish") { s.v = 3 - s.v; return; }
    if (act.n === "lost") { const all = readdirSync(join(s.dir, "assets"), { recursive: true }).filter((f) => f.endsWith("bundle.cjs")); for (const f of all) rmSync(join(s.dir, "assets", f)); return all.length ? undefined : "nothing is cached"; }
    let r = s.who[act.c]; const mine = () => s.web.open().find((c) => c.owner === r);
    if (act.n === "call") {
      const n = r = s.who[act.c] = s.run(() => (act.o === "fetch" ? s.mod.fetchAsset("replay/v3/bundle.js") : s.mod.checkIfAssetsOutdated(["replay/v3/bundle.js"]))); n.op = act.o; s.all.push(n);
      if (to.ph[act.c - 1] === "idle") { await settleUntil(() => n.out.state !== "pending" || s.web.open().some((c) => !c.owner), { maxMs: 8000 }); return; }
      if (act.o === "fetch") return s.locked(n);
    } else if (act.n === "grant") s.locks.grant(r.lock);
    else {
      const c = mine(); if (!c) return "nothing was requested"; const url = `${s.base}replay/v3/bundle.js`;
      if (c.url !== url || c.method !== (from.ph[act.c - 1] === "head" ? "HEAD" : "GET")) return `requested ${c.method} ${c.url}`;
      if (act.n === "head") { r.n = s.locks.asked.length; c.answer(200, from.setup === "untagged" ? {} : { etag: `"e${s.v}"` }); }
      else if (act.n === "get") c.answer(200, {}, Buffer.from(BUNDLE[`v${s.v}`]));
      else if (act.n === "crash") {
        if (act.k === "noting") { s.marking = true; c.answer(200, {}, Buffer.from(BUNDLE[`v${s.v}`])); await settleUntil(() => s.marked || r.out.state !== "pending", { maxMs: 10_000 }); s.marking = false; s.marked = 0; }
        else { c.open = false; if (from.ph[act.c - 1] === "get") { c.answer(200, {}); await settle({ rounds: 2, io: true }); c.body.write("part of a bundle"); await settle({ rounds: 3, io: true }); } }
        s.locks.die(r.lock); r.dead = true; return;
      } else c.answer(404, {}, "no");
      if (to.ph[act.c - 1] === "wait") return s.locked(r);
    }
    const over = to.ph[act.c - 1] === "idle";
    await settleUntil(() => { const c = s.web.open().find((x) => !x.owner); if (c) c.owner = r; return over ? r.out.state !== "pending" : mine(); }, { maxMs: 8000 });
    await settle({ rounds: 2, io: true });
  },
  observe(s, to) {
    const at = to.setup === "custom" ? undefined : join(s.dir, "assets/bundle.cjs");
    return { requests: s.web.open().length, bad: s.locks.bad.join(), held: to.ph.map((_, i) => s.who[i + 1]?.lock?.state === "held"),
      res: to.ph.map((_, i) => { const r = s.who[i + 1]; if (!r) return "none"; if (r.dead) return "crashed"; const o = r.out; if (o.state !== "ok") return o.state; if (to.ph[i] !== "idle") return "over";
        if (r.op === "check") return JSON.stringify(o.value) === '{"replay/v3/bundle.js":true}' ? "outdated" : JSON.stringify(o.value) === '{"replay/v3/bundle.js":false}' ? "current" : JSON.stringify(o.value);
        if (r.seen) return r.seen; if (o.value === join(s.pre, "bundle.cjs")) return (r.seen = "preloaded"); if (at && o.value !== at) return `wrong file ${o.value}`; if (!o.value.startsWith(join(s.dir, "assets"))) return `wrong file ${o.value}`;
        const x = existsSync(o.value) ? readFileSync(o.value, "utf8") : ""; return (r.seen = x === BUNDLE.v1 ? "v1" : x === BUNDLE.v2 ? "v2" : "part"); }) };
  },
  expect: (m) => ({ requests: m.ph.filter((p) => p === "head" || p === "get").length, bad: "", held: m.ph.map((p, i) => m.op[i] === "fetch" && (p === "head" || p === "get")), res: m.ph.map((p, i) => (p === "idle" ? m.res[i] : "pending")) }),
  async teardown(s) { for (const c of s.web.calls) c.body?.destroy(); await s.close(s.all); for (const [k, v] of s.saved) if (v === undefined) delete process.env[k]; else process.env[k] = v; },
});
const set = (...a) => `{${a.map((x) => `"${x}"`).join(", ")}}`;
const INV = { invariants: ["OneAtATime", "MarkerHolds", "FailureReported"], properties: ["SuccessIsComplete", "PartsDoNotComplete"] };
export default {
  property: "D03",
  assumptions: ["the API client, the network, zip extraction and proper-lockfile are replaced by doubles; a lock whose holder died is freed as stale; files are real"],
  models: [
    { name: "replay", spec: "ArchiveCache", driver: async () => driver(await bundle({ dl: "downloading-helpers/src/index.ts", common: "common/src/index.ts" }).then(merged), "replay"),
      runs: ({ tier }) => {
        const t = tier === "thorough"; const c = (o) => ({ Kind: '"replay"', NC: 2, ...o });
        return [
          { name: "shared", cfg: { constants: c({ Types: set("shots", "timeline"), Scopes: set("everything", "screenshots-only", "timeline-only"), Opts: set("none"), Faults: set("refused", "damaged", "crash", "marking"), MaxCalls: 3, MaxFaults: t ? 2 : 1 }), ...INV }, maxPaths: t ? 30000 : 3000, walks: t ? 4000 : 100 },
          { name: "options", cfg: { constants: c({ Types: set("timeline", "mapped", "assets"), Scopes: set("everything"), Opts: set("none", "exclude", "best", "both"), Faults: set("refused", "damaged", "api", "gone"), MaxCalls: 3, MaxFaults: t ? 2 : 1, NC: t ? 2 : 1 }), ...INV }, maxPaths: t ? 30000 : 2000, walks: t ? 4000 : 100 },
          { name: "softer", cfg: { constants: c({ Types: set("css", "mjs"), Scopes: set("everything", "post-test-run-processing-files-only"), Opts: set("none", "softer", "both"), Faults: set("refused", "damaged"), MaxCalls: 3, MaxFaults: t ? 2 : 1, NC: t ? 2 : 1 }), ...INV }, maxPaths: t ? 30000 : 1200, walks: t ? 4000 : 50 },
          { name: "pictures", cfg: { constants: c({ Types: set("shots", "shotmeta", "diff", "thumb"), Scopes: set("everything", "screenshots-only"), Opts: set("none", "best"), Faults: set("refused", "damaged"), MaxCalls: 3, MaxFaults: 1, NC: 1 }), ...INV }, maxPaths: t ? 30000 : 1200, walks: t ? 4000 : 50 },
          { name: "scopes", cfg: { constants: c({ Types: set("shots", "timeline", "mapped", "mjs", "raw", "assets", "podlog"), Scopes: set("everything", "screenshots-only", "timeline-only", "post-test-run-processing-files-only", "post-process-including-unmapped-ranges"), Opts: set("none", "exclude"), Faults: set(), MaxCalls: 2, MaxFaults: 0, NC: 1 }), ...INV }, maxPaths: t ? 10000 : 1200, walks: 50 },
        ];
      } },
    { name: "testrun", spec: "ArchiveCache", driver: async () => driver(await bundle({ dl: "downloading-helpers/src/index.ts", common: "common/src/index.ts" }).then(merged), "testrun"),
      runs: ({ tier }) => {
        const t = tier === "thorough"; const c = (o) => ({ Kind: '"testrun"', NC: 2, Opts: set("none"), ...o });
        return [
          { name: "logs", cfg: { constants: c({ Types: set("coverage", "podA", "podB"), Scopes: set("everything", "app-container-logs", "coverage-only"), Faults: set("refused", "damaged", "crash", "marking", "api"), MaxCalls: t ? 3 : 2, MaxFaults: t ? 2 : 1 }), ...INV }, maxPaths: t ? 30000 : 2500, walks: t ? 4000 : 100 },
          { name: "upgrade", cfg: { constants: c({ Types: set("coverage", "stats"), Scopes: set("everything", "coverage-only", "coverage-pr-only"), Faults: set("refused", "damaged", "crash"), MaxCalls: 3, MaxFaults: t ? 2 : 1, NC: t ? 2 : 1 }), ...INV }, maxPaths: t ? 30000 : 1500, walks: t ? 4000 : 50 },
          { name: "scopes", cfg: { constants: c({ Types: set("coverage", "stats", "coveragePr", "statsPr", "byReplayPr", "podA"), Scopes: set("everything", "app-container-logs", "coverage-by-replay-pr-only", "coverage-only", "coverage-pr-only"), Faults: set("gone"), MaxCalls: 2, MaxFaults: 1, NC: 1 }), ...INV }, maxPaths: t ? 10000 : 1200, walks: 50 },
        ];
      } },
    { name: "document", spec: "JsonCache", driver: async () => jsonDriver(await bundle({ dl: "downloading-helpers/src/index.ts", common: "common/src/index.ts" }).then(merged)),
      runs: ({ tier }) => {
        const t = tier === "thorough";
        return [{ name: "all", cfg: { constants: { Kinds: set("session", "data", "replay"), Items: set("2026-session.a1", "2026-session.b2"), Answers: set("ok", "missing", "refused", "crash", "writing"), NC: 2, MaxCalls: t ? 4 : 3, MaxFaults: t ? 2 : 1 }, invariants: ["OneAtATime"], properties: ["SuccessIsThere", "Kept"] }, maxPaths: t ? 20000 : 2500, walks: t ? 3000 : 100 }];
      } },
    { name: "asset", spec: "AssetCache", driver: async () => assetDriver(await bundle({ dl: "downloading-helpers/src/index.ts", common: "common/src/index.ts" }).then(merged)),
      runs: ({ tier }) => {
        const t = tier === "thorough"; const inv = { invariants: ["OneAtATime", "NotedIsComplete", "SuccessIsComplete"] };
        return [
          { name: "published", cfg: { constants: { Setups: set("plain"), Ops: set("fetch"), Faults: set("refused", "crash", "noting"), NC: 1, MaxCalls: t ? 4 : 3, MaxPublish: 3, MaxFaults: t ? 2 : 1 }, ...inv }, maxPaths: t ? 20000 : 1500, walks: t ? 3000 : 100 },
          { name: "lost", cfg: { constants: { Setups: set("plain", "custom", "untagged"), Ops: set("fetch", "check"), Faults: set("lost", "refused"), NC: 1, MaxCalls: t ? 4 : 3, MaxPublish: 1, MaxFaults: 1 }, ...inv }, maxPaths: 1500, walks: 100 },
          { name: "shared", cfg: { constants: { Setups: set("plain", "preloaded", "lacking", "custom", "untagged"), Ops: set("fetch", "check"), Faults: set("refused", "lost"), NC: 2, MaxCalls: t ? 3 : 2, MaxPublish: 1, MaxFaults: t ? 1 : 0 }, ...inv }, maxPaths: t ? 20000 : 1500, walks: t ? 3000 : 100 },
        ];
      } },
  ],
};
function merged(inst) { return (d) => { const m = inst(d); return { ...m.common, ...m.dl }; }; }
