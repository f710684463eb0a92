import fs, { mkdtempSync, rmSync, writeFileSync, readFileSync, existsSync, mkdirSync, readdirSync } from "node:fs";
import { tmpdir } from "node:os"; import { join } from "node:path"; import zlib from "node:zlib";
import { bundle } from "../lib/bundle.mjs";
import { FakeClock, settle } from "../lib/clock.mjs";
import { track, settleUntil, deferred } from "../lib/util.mjs";
import { Web, wind, fastZlib, nodeTar, luxon } from "../harness/web.mjs";
import { pLimitModule } from "../harness/net.mjs";

const PIECES = ["first piece \u2713 ", "second".repeat(9000), "\u0000\u0001 third"].map((x) => Buffer.from(x));
const ENTRIES = ["a.txt", "dir/", "dir/b.txt"];
const deflate = (n) => { const d = new fastZlib.DeflateRaw(); const r = PIECES.slice(0, n).map((p) => d.process(p, zlib.constants.Z_SYNC_FLUSH)); r.push(d.process(Buffer.alloc(0), zlib.constants.Z_FINISH)); return [...r.slice(0, n - 1), Buffer.concat(r.slice(n - 1))]; };
// the time limits: until the first data, of the download, of the extraction
const LIMITS = { standard: { first: 60_000, file: 120_000, zip: 120_000, inflate: 600_000, extract: 300_000 }, own: { first: 20_000, file: 34_000, zip: 120_000, inflate: 46_000, extract: 70_000 } };
const firstOf = ({ mode, limit }) => (mode === "zip" ? 60_000 : LIMITS[limit].first);

const driver = (inst, n) => ({
  async setup(init) {
    const { mode } = init; const s = { init, mode, dir: mkdtempSync(join(tmpdir(), "verif-d01-")), extracts: [] };
    s.env = process.env.METICULOUS_IS_CLOUD_REPLAY; process.env.METICULOUS_IS_CLOUD_REPLAY = "true";
    s.target = join(s.dir, mode === "inflate" ? "sub/out.tar" : "out.bin"); s.into = join(s.dir, "into"); mkdirSync(s.into);
    if (init.pre) { mkdirSync(join(s.target, ".."), { recursive: true }); writeFileSync(s.target, "what was there before, and quite long ".repeat(3000)); }
    s.content = Buffer.concat(PIECES.slice(0, n)); s.wire = mode === "inflate" ? deflate(n) : PIECES.slice(0, n);
    s.clock = new FakeClock().install(); const web = s.web = new Web();
    const full = () => Object.assign(new Error("ENOSPC: no space left on device"), { code: "ENOSPC" });
    const failing = { ...fs,
      write: (...a) => (s.full ? setImmediate(a.at(-1), full()) : fs.write(...a)), writev: (...a) => (s.full ? setImmediate(a.at(-1), full()) : fs.writev(...a)) };
    const mod = inst({ ...web.doubles(), "p-limit": pLimitModule, "fast-zlib": fastZlib, tar: nodeTar(), luxon,
      fs: { ...fs, createWriteStream: (p, o) => fs.createWriteStream(p, { ...(typeof o === "string" ? { encoding: o } : o), fs: failing }) },
      "extract-zip": { __esModule: true, default: (path, o) => { const d = deferred(); s.extracts.push({ path, o, d, open: true, held: existsSync(path) && readFileSync(path).equals(s.content) }); return d.promise; } } });
    const url = "https://s3.example/thing?sig=1";
    const own = init.limit === "own"; const L = s.limits = LIMITS[init.limit];
    s.out = track(mode === "file" ? mod.downloadFile(url, s.target, { maxDownloadContentRetries: init.retries, downloadContentRetryDelay: init.delay, ...(own ? { firstDataTimeoutInMs: L.first, downloadCompleteTimeoutInMs: L.file } : {}) })
      : mode === "zip" ? mod.downloadAndExtractFile(url, s.target, s.into, ...(own ? [L.extract] : []))
      : mod.streamDownloadAndInflateTar(url, s.target, { maxRetries: init.retries, retryDelay: init.delay, ...(own ? { firstDataTimeoutInMs: L.first, totalTimeoutInMs: L.inflate } : {}) }));
    await this.until(s); return s;
  },
  until(s, maxMs = 10_000) { return settleUntil(() => s.web.open().length || s.out.state !== "pending", { maxMs }); },
  // the attempt is lost: another one begins after the pause, or it is over
  async lost(s, act, to, { slow = 0 } = {}) {
    const t0 = Date.now(); const again = to.phase === "req";
    await settle({ rounds: 6, io: true });
    if (again) {
      if (slow && !s.clock.pending().some((t) => t.ms === s.init.delay)) { await s.clock.advance(s.t0 + slow - Date.now(), { io: true }); }
      await settleUntil(() => s.clock.pending().some((t) => t.ms === s.init.delay) || s.web.open().length || s.out.state !== "pending", { maxMs: 10_000 });
      if (s.web.open().length) return "tried again at once";
      await s.clock.advance(s.init.delay - 1); await settle({ rounds: 4, io: true }); if (s.web.open().length) return "tried again too early";
      await s.clock.advance(1); await this.until(s);
    } else {
      if (slow) await s.clock.advance(slow, { io: true });
      await settleUntil(() => s.out.state !== "pending", { maxMs: 10_000 });
    }
  },
  async step(s, act, to, from) {
    const { web, clock } = s; const [c] = web.open(); const body = s.call?.body;
    if (["refuse", "answer"].includes(act.n) && (!c || c.url !== "https://s3.example/thing?sig=1" || c.method !== "GET")) return "no request for it is under way";
    if (act.n === "refuse") {
      if (act.kind === "silent") { const t = c.at + firstOf(from); await clock.advance(t - 1 - Date.now()); if (!c.open) return "given up before the time limit"; await clock.advance(1); if (c.open) return "not given up at the time limit"; }
      else if (act.kind === "reset") c.fail("ECONNRESET"); else c.answer(+act.kind, {}, "no");
      if (to.phase === "req" && to.att === from.att) { await this.until(s); return; }
      return this.lost(s, act, to);
    }
    if (act.n === "answer") { s.call = c; s.t0 = Date.now(); s.sent = 0; s.full = false; c.answer(200, from.att % 2 ? {} : { "content-length": String(s.wire.reduce((a, b) => a + b.length, 0)) }); await settle({ rounds: 6, io: true }); return; }
    if (act.n === "piece") { body.write(s.wire[s.sent++]); await settle({ rounds: 3, io: true }); return; }
    if (act.n === "half") {
      const limit = s.limits[s.mode];
      if (from.el === 0) { await clock.advance(s.t0 + limit / 2 - Date.now()); return; }
      await clock.advance(s.t0 + limit - 1 - Date.now()); await settle({ rounds: 4, io: true });
      if (s.out.state !== "pending" || web.open().length || s.call.cancelled) return "given up before the time limit";
      await clock.advance(1); const e = await this.lost(s, act, to); if (e) return e;
      return s.call.cancelled || s.call.body.destroyed ? undefined : "the download goes on beyond the time limit";
    }
    if (act.n === "body") {
      if (act.kind === "break") s.call.break();
      else if (act.kind === "disk") { s.full = true; body.write(s.wire[s.sent]); }
      else if (act.kind === "corrupt") body.end(Buffer.from("ff".repeat(30), "hex"));
      else body.end();
      return this.lost(s, act, to, { slow: act.kind === "break" && s.mode !== "inflate" ? s.limits[s.mode] : 0 });
    }
    if (act.n === "end") { body.end(); await settleUntil(() => (to.phase === "extract" ? s.extracts.length : s.out.state !== "pending"), { maxMs: 10_000 }); return; }
    if (act.n === "extracted") {
      const x = s.extracts.find((e) => e.open); if (!x) return "nothing is being extracted";
      if (!x.held || x.o.dir !== s.into || x.path !== s.target) return "the wrong archive is extracted";
      x.open = false; ENTRIES.forEach((e, i) => { if (act.kind === "good" || (i === 0 && act.kind === "bad")) x.o.onEntry({ fileName: e }); });
      if (act.kind === "good") x.d.resolve(); else if (act.kind === "bad") x.d.reject(new Error("bad archive"));
      else { await clock.advance(s.limits.extract - 1, { io: true }); if (s.out.state !== "pending") return "extraction given up before the time limit"; await clock.advance(1); }
      await settleUntil(() => s.out.state !== "pending", { maxMs: 10_000 });
    }
  },
  observe(s, to) {
    const over = ["ok", "failed"].includes(to.phase); const at = to.phase === "req" && to.att > 0;
    const e = s.out.error, v = s.out.value;
    return { state: s.out.state, requests: s.web.open().length, extracting: s.extracts.filter((x) => x.open).length,
      target: over || at ? (!existsSync(s.target) ? "none" : readFileSync(s.target).equals(s.content) ? "all" : String(readFileSync(s.target)).startsWith("what was") ? "old" : "part") : null,
      value: s.out.state !== "ok" ? null : s.mode === "zip" ? v.join() : s.mode === "inflate" ? [v.compressedBytes, v.inflatedBytes].join() : "done",
      error: s.out.state !== "error" ? null : ["break", "corrupt", "short"].includes(to.last) ? "any" : e.response?.status ?? e.code ?? (/timed out/.test(e.message) ? "timeout" : e.message) };
  },
  expect(m, act, s) {
    const over = ["ok", "failed"].includes(m.phase); const at = m.phase === "req" && m.att > 0;
    const err = { reset: "ECONNRESET", silent: "ECONNABORTED", late: "timeout", hang: "timeout", bad: "bad archive", disk: "ENOSPC", break: "any", corrupt: "any", short: "any" }[m.last] ?? +m.last;
    return { state: { ok: "ok", failed: "error" }[m.phase] ?? "pending", requests: m.phase === "req" ? 1 : 0, extracting: m.phase === "extract" ? 1 : 0,
      target: at ? "none" : !over ? null : m.phase === "ok" ? (m.mode === "zip" ? "none" : "all") : m.wrote || !m.pre ? "none" : "old",
      value: m.phase !== "ok" ? null : m.mode === "zip" ? ENTRIES.join() : m.mode === "inflate" ? [s.wire.reduce((a, b) => a + b.length, 0), s.content.length].join() : "done",
      error: m.phase === "failed" ? err : null };
  },
  // nothing happens afterwards
  async finish(s, m) {
    if (m.phase !== "ok" && m.phase !== "failed") return;
    const before = this.observe(s, m); const n = s.web.calls.length;
    for (let i = 0; i < 3; i++) { await s.clock.advance(1_500_000, { io: true, rounds: 2 }); await settle({ rounds: 3, io: true }); }
    if (s.web.calls.length !== n) return "requested again after the end";
    if (JSON.stringify(this.observe(s, m)) !== JSON.stringify(before)) return "changed after the end";
    const left = readdirSync(s.dir, { recursive: true }).sort().join();
    const want = ["into", ...(s.mode === "inflate" ? ["sub"] : []), ...(before.target !== "none" ? [s.mode === "inflate" ? "sub/out.tar" : "out.bin"] : [])].sort().join();
    if (s.mode !== "inflate" && left !== want) return `left behind: ${left}`;
  },
  async teardown(s) { await wind(s.web, s.clock, s.out, { settle, before: () => { for (const x of s.extracts) x.d.reject(new Error("over")); } }); s.clock.uninstall(); if (s.env === undefined) delete process.env.METICULOUS_IS_CLOUD_REPLAY; else process.env.METICULOUS_IS_CLOUD_REPLAY = s.env; await settle({ rounds: 2, io: true }); rmSync(s.dir, { recursive: true, force: true }); },
});
const set = (...a) => `{${a.map((x) => (typeof x === "string" ? `"${x}"` : typeof x === "boolean" ? String(x).toUpperCase() : x)).join(", ")}}`;
const INV = { invariants: ["Bounded", "CompleteIfOk", "NeverPartial"], properties: ["GivenUpLate"] };
const KINDS = set("404", "503", "429", "reset", "silent", "break", "disk", "corrupt", "short", "good", "bad", "hang");
export default {
  property: "D01",
  assumptions: ["time, the network (axios) and zip extraction are replaced by doubles; files are real"],
  models: [1, 3].map((n) => ({
    name: `download${n}`, spec: "Download",
    driver: async () => driver(await bundle("downloading-helpers/src/index.ts"), n),
    runs: ({ tier }) => {
      const t = tier === "thorough";
      const c = (m) => ({ ...m, Kinds: KINDS, N: n });
      return n === 1 ? [{ name: "all", cfg: { constants: c({ Modes: set("file", "zip", "inflate"), Retries: set(3), Delays: set(1000), Limits: set("standard"), Pres: set(true, false) }), ...INV }, maxPaths: t ? 20000 : 4500, walks: t ? 3000 : 100 }]
        : [{ name: "limits", cfg: { constants: c({ Modes: set("file", "zip", "inflate"), Retries: set(1, 3), Delays: set(1000), Limits: set("own"), Pres: set(false) }), ...INV }, maxPaths: t ? 20000 : 2500, walks: t ? 3000 : 100 },
          { name: "options", cfg: { constants: c({ Modes: set("file", "inflate"), Retries: set(0, 2), Delays: set(5000, 1000), Limits: set("standard"), Pres: set(true) }), ...INV }, maxPaths: t ? 20000 : 4500, walks: t ? 3000 : 100 }];
    },
  })),
};
