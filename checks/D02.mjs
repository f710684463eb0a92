import fs, { mkdtempSync, rmSync, writeFileSync, readFileSync, existsSync, mkdirSync, readdirSync, statSync, lstatSync, symlinkSync } from "node:fs";
import fsp from "node:fs/promises";
import { tmpdir } from "node:os"; import { join, resolve } from "node:path"; import zlib from "node:zlib";
import { bundle } from "../lib/bundle.mjs";
import { FakeClock, settle } from "../lib/clock.mjs";
import { track, settleUntil, deferred } from "../lib/util.mjs";
import { Web, wind, fastZlib, nodeTar, luxon } from "../harness/web.mjs";
import { pLimitModule } from "../harness/net.mjs";

const tar = nodeTar();
const NOISE = Buffer.alloc(700_001); for (let i = 0, x = 7; i < NOISE.length; i++) { x = (x * 1103515245 + 12345) & 0x7fffffff; NOISE[i] = x >> 16; }
const LONG = `long/${"n".repeat(90)}/${"m".repeat(130)}.txt`;
const entryOf = (e, out) => ({
  plain: ["a.txt", "File"], dot: ["./dotted.txt", "File"], deep: ["d/e/f.txt", "File"], dots: ["..name.txt", "File"], dotsdir: ["..d/x.txt", "File"], dotsonly: ["...", "File"], empty: ["z.txt", "File", Buffer.alloc(0)],
  big: ["big.bin", "File", NOISE], zeros: ["zeros.bin", "File", Buffer.alloc(1_400_003)], beside: ["d/e/g.txt", "File"], contiguous: ["tape.txt", "ContiguousFile"], long: [LONG, "File"], unicode: ["ü/\u2713.txt", "File"], space: ["with space/-rf *.txt", "File"], old: ["old.txt", "OldFile"], exec: ["run.sh", "File", null, 0o755], sibling: ["d/e2.txt", "File"],
  many: ["d/e/f/g/h/i.txt", "File", Buffer.alloc(512, "x")], dir: ["d/", "Directory"], dotdir: ["./", "Directory"], up: ["../up.txt", "File"], deepup: ["d/../../up2.txt", "File"], abs: [join(out, "abs.txt"), "File"], updir: ["../newdir/", "Directory"], upslash: ["..//up3.txt", "File"],
  symlink: ["l", "SymbolicLink", out], symfile: ["s.txt", "SymbolicLink", join(out, "victim.txt")], symup: ["u", "SymbolicLink", ".."], hardout: ["h.txt", "Link", join(out, "victim.txt")], hardin: ["h2.txt", "Link", "a.txt"], device: ["null", "CharacterDevice"], fifo: ["pipe", "FIFO"], through: ["l/x.txt", "File"], oblique: ["d/../b.txt", "File"],
})[e];
/** the blocks of one entry */
const blocks = ([path, type, body, mode], e) => {
  const link = type === "SymbolicLink" || type === "Link"; const content = ["File", "OldFile", "ContiguousFile"].includes(type) ? (Buffer.isBuffer(body) ? body : Buffer.from(`content of ${e} \u2713\n`)) : Buffer.alloc(0);
  const opts = { path, mode: mode ?? (type === "Directory" ? 0o755 : 0o644), size: content.length, type, mtime: new Date(0), uid: 0, gid: 0, ...(link ? { linkpath: body } : {}), devmaj: 1, devmin: 3 };
  const out = []; const h = new tar.Header(opts); h.encode();
  if (h.needPax) out.push(new tar.Pax({ path, size: content.length, ...(link ? { linkpath: body } : {}) }).encode());
  out.push(h.block, content, Buffer.alloc((512 - (content.length % 512)) % 512));
  return { bytes: Buffer.concat(out), content };
};
/** pieces of plain bytes, each decodable as soon as it has arrived */
const pack = (flow, pieces) => {
  const d = new fastZlib.DeflateRaw(); const all = Buffer.concat(pieces);
  const r = pieces.map((p) => d.process(p, zlib.constants.Z_SYNC_FLUSH)); r.push(d.process(Buffer.alloc(0), zlib.constants.Z_FINISH));
  if (flow === "gz") { r[0] = Buffer.concat([Buffer.from([31, 139, 8, 0, 0, 0, 0, 0, 0, 3]), r[0]]); const t = Buffer.alloc(8); t.writeUInt32LE(zlib.crc32(all), 0); t.writeUInt32LE(all.length >>> 0, 4); r[r.length - 1] = Buffer.concat([r.at(-1), t]); }
  return r;
};
const EOA = Buffer.alloc(1024);
const tree = (d) => { const r = {}; const walk = (p, n) => { for (const f of readdirSync(p).sort()) { const q = join(p, f), m = n ? `${n}/${f}` : f; const st = lstatSync(q); if (st.isDirectory()) { r[`${m}/`] = "dir"; walk(q, m); } else if (st.isSymbolicLink()) r[m] = "link"; else r[m] = st.isFile() ? readFileSync(q) : "special"; } }; if (existsSync(d)) walk(d, ""); return r; };
const norm = (p) => p.replace(/^\.\//, "");

const base = () => {
  const s = { dir: mkdtempSync(join(tmpdir(), "verif-d02-")) };
  s.out = join(s.dir, "outside"); mkdirSync(s.out); writeFileSync(join(s.out, "victim.txt"), "victim"); s.into = join(s.dir, "box/into");
  mkdirSync(join(s.dir, "box"));
  s.clock = new FakeClock().install(); s.web = new Web(); return s;
};
const doubles = (s, extra = {}) => ({ ...s.web.doubles(), "p-limit": pLimitModule, "fast-zlib": fastZlib, tar, luxon, "extract-zip": {}, ...extra });
const clear = async (s, before) => { if (s.res) await wind(s.web, s.clock, s.res, { settle, before }); s.clock.uninstall(); await settle({ rounds: 3, io: true }); rmSync(s.dir, { recursive: true, force: true }); };
const URL_ = "https://s3.example/a.tar";
const go = (mod, flow) => ({ raw: mod.streamDownloadAndExtractTar, gz: mod.streamDownloadAndExtractTarGz })[flow];

const contents = (inst) => ({
  async setup(init) { const s = base(); s.list = [];
    // a slow disk: what creates a directory takes a while
    const mkdir = async (...a) => { for (let i = 0; i < 4; i++) await new Promise(setImmediate); return fsp.mkdir(...a); };
    s.mod = inst(doubles(s, { "fs/promises": { ...fsp, mkdir, default: { ...fsp, mkdir } } })); return s; },
  async step(s, act, to) {
    if (act.n === "add") { s.list.push(act.e); return; }
    const es = s.list.map((e) => [e, entryOf(e, s.out)]); const bs = es.map(([e, x]) => blocks(x, e));
    s.want = Object.fromEntries(s.list.map((e, i) => [e, bs[i].content]));
    const res = track(go(s.mod, to.flow)(URL_, s.into, { extractConcurrency: to.width, maxRetries: 0 }));
    await settleUntil(() => s.web.open().length, { maxMs: 10_000 });
    const c = s.web.open()[0]; if (!c) return "no request"; c.answer(200, {});
    const wire = Buffer.concat(pack(to.flow, [...bs.map((b) => b.bytes), EOA]));
    for (let i = 0; i < wire.length; i += 40_009) c.body.write(wire.subarray(i, i + 40_009)); c.body.end();
    await settleUntil(() => res.state !== "pending", { maxMs: 10_000 });
    if (res.state !== "ok") return `extraction: ${res.state} ${res.error?.stack}`;
    s.reported = res.value;
  },
  observe(s, to) {
    if (to.phase === "packing") return null;
    const t = tree(s.into); const bad = [];
    const outside = JSON.stringify([tree(s.out), readdirSync(s.dir).sort(), readdirSync(join(s.dir, "box"))]);
    if (outside !== JSON.stringify([{ "victim.txt": Buffer.from("victim") }, ["box", "outside"], ["into"]])) bad.push(`outside: ${outside}`);
    for (const { e, fate } of to.list) {
      const [path, type] = entryOf(e, s.out); const p = norm(path);
      if (fate === "yes") {
        if (type === "Directory") { if (p !== "" && t[p] !== "dir") bad.push(`${e}: no directory`); }
        else if (!Buffer.isBuffer(t[p]) || !t[p].equals(s.want[e])) bad.push(`${e}: ${Buffer.isBuffer(t[p]) ? "other contents" : t[p] ?? "not there"}`);
        else if ((statSync(join(s.into, p)).mode & 0o100) !== (e === "exec" ? 0o100 : 0)) bad.push(`${e}: mode`);
      }
    }
    // nothing else
    const known = new Set(); for (const { e, fate } of to.list) if (fate !== "no") for (let p = norm(entryOf(e, s.out)[0]).replace(/^\/+/, "").replace(/\/$/, ""), i = 0; p && i < 9; p = p.replace(/\/?[^/]*$/, ""), i++) { known.add(p); known.add(`${p}/`); }
    for (const f of Object.keys(t)) if (!known.has(f) && !(f === "b.txt" && known.has("d/../b.txt")) && !(f === "d/" && known.has("d/../b.txt"))) bad.push(`unexpected ${f}`);
    const yes = to.list.filter((x) => x.fate === "yes").map((x) => x.e); const by = new Map(to.list.map(({ e }) => [entryOf(e, s.out)[0], e]));
    const rep = s.reported.map((p) => by.get(p) ?? by.get(`${p}/`) ?? p);
    const maybe = new Set(to.list.filter((x) => x.fate === "maybe" || to.width === 1).map((x) => x.e));
    return { bad, reported: rep.filter((e) => yes.includes(e) || !maybe.has(e)) };
  },
  expect(m) { return m.phase === "packing" ? null : { bad: [], reported: m.list.filter((x) => x.fate === "yes" && x.e !== "dotdir" || (x.e === "dotdir" && m.width === 1)).map((x) => x.e) }; },
  teardown: (s) => clear(s),
});

const schedule = (inst, n) => ({
  async setup(init) {
    const s = base(); s.ops = []; s.n = n;
    const names = Array.from({ length: n }, (_, i) => `d${i + 1}/f${i + 1}.txt`); s.names = names;
    s.data = names.map((x, i) => (i === 1 ? Buffer.alloc(300_000, `${x} `) : Buffer.from(`content of ${x}\n`)));
    s.wire = pack(init.flow, [...names.map((x, i) => blocks([x, "File", s.data[i]], x).bytes), EOA]);
    // operations on the files take as long as the driver wants; one that was begun is completed
    const gate = (f) => (p, ...a) => {
      const path = typeof p === "string" ? p : String(p); const m = /\/d(\d)(\/|$)/.exec(path.startsWith(s.into) ? path : "");
      if (!m || init.width === 1) return fsp[f](p, ...a);
      const opts = a.at(-1); const signal = opts && typeof opts === "object" ? opts.signal : undefined;
      if (signal?.aborted) return Promise.reject(new DOMException("aborted", "AbortError"));
      const d = deferred(); const op = { i: +m[1], f, open: true };
      op.finish = async (error) => {
        op.open = false; if (error) return d.reject(error);
        try { if (signal?.aborted && f === "writeFile") { fs.closeSync(fs.openSync(path, "w")); throw new DOMException("aborted", "AbortError"); } d.resolve(await fsp[f](p, ...a)); } catch (e) { d.reject(e); }
      };
      s.ops.push(op); return d.promise;
    };
    const gated = Object.fromEntries(["mkdir", "writeFile", "open", "appendFile"].map((f) => [f, gate(f)]));
    const mod = inst(doubles(s, { "fs/promises": { ...fsp, default: { ...fsp, ...gated }, ...gated } }));
    s.res = track(go(mod, init.flow)(URL_, s.into, { maxRetries: init.retries, retryDelay: 3_000, ...(init.width > 1 ? { extractConcurrency: init.width } : {}) }));
    s.t0 = Date.now(); s.init = init; await this.until(s); return s;
  },
  until(s, maxMs = 10_000) { return settleUntil(() => s.web.open().length || s.res.state !== "pending", { maxMs }); },
  openOps: (s) => s.ops.filter((o) => o.open),
  // completes all that concerns file i
  async release(s, i, error) {
    for (let k = 0; k < 6; k++) {
      const o = this.openOps(s).find((x) => x.i === i); if (!o) { if (k) return; return "not being written"; }
      await o.finish(error); await settle({ rounds: 4, io: true }); if (error) return;
    }
  },
  async lost(s, to) {
    await settle({ rounds: 6, io: true });
    if (to.phase !== "req") { await settleUntil(() => s.res.state !== "pending", { maxMs: 10_000 }); return; }
    const t0 = Date.now();
    await settleUntil(() => s.clock.pending().some((t) => t.ms === 3_000) || s.web.open().length || s.res.state !== "pending", { maxMs: 10_000 }); await settle({ rounds: 6, io: true });
    if (existsSync(s.into)) return `left behind: ${Object.keys(tree(s.into))} (${JSON.stringify(s.clock.pending().map((t) => t.ms))} ${s.web.open().length} ${s.res.state})`;
    await s.clock.advance(2_999); await settle({ rounds: 4, io: true }); if (s.web.open().length || existsSync(s.into)) return "begun again too early";
    await s.clock.advance(1); s.t0 = Date.now(); await this.until(s);
  },
  async step(s, act, to, from) {
    const { web, clock } = s; const [c] = web.open(); const body = s.call?.body;
    if (act.n === "refuse" || act.n === "answer") {
      if (!c || c.url !== URL_) return "no request is under way";
      if (act.n === "refuse") { c.answer(404, {}, "no"); return this.lost(s, to); }
      s.call = c; s.sent = 0; c.answer(200, {}); await settle({ rounds: 6, io: true }); return;
    }
    if (act.n === "piece") {
      body.write(s.wire[s.sent++]); await settle({ rounds: 6, io: true });
      await settleUntil(() => (from.width === 1 ? Buffer.isBuffer(tree(s.into)[s.names[to.k - 1]]) : new Set(this.openOps(s).map((o) => o.i)).size >= to.busy.length), { maxMs: 10_000 }); return;
    }
    const settled = async () => { if (["ok", "failed"].includes(to.phase)) await settleUntil(() => s.res.state !== "pending", { maxMs: 10_000 }); else if (to.phase === "req") return this.lost(s, to); };
    if (act.n === "written") return (await this.release(s, act.i)) ?? settled();
    if (act.n === "unwritten") return (await this.release(s, act.i, Object.assign(new Error("ENOSPC: no space left"), { code: "ENOSPC" }))) ?? settled();
    if (act.n === "end") { for (; s.sent < s.wire.length;) body.write(s.wire[s.sent++]); body.end(); await settle({ rounds: 6, io: true }); return settled(); }
    if (act.n === "break") {
      if (act.kind === "break") s.call.break(); else if (act.kind === "short") body.end(); else body.end(Buffer.from("ff".repeat(40), "hex"));
      await settle({ rounds: 8, io: true }); await settleUntil(() => !existsSync(s.into), { maxMs: 30 }); if (to.phase !== "winding") return this.lost(s, to); return;
    }
    if (act.n === "wound") {
      const e = await this.release(s, act.i); if (e) return e;
      if (to.phase !== "winding") { for (let k = 0; k < 9 && this.openOps(s).length; k++) { await this.openOps(s)[0].finish(); await settle({ rounds: 4, io: true }); } return this.lost(s, to); }
      return;
    }
    if (act.n === "half") { await clock.advance(1_800_000, { rounds: 2 }); return; }
    if (act.n === "late") { await clock.advance(s.t0 + 3_599_999 - Date.now(), { io: true }); if (s.res.state !== "pending" || s.call.cancelled) return "given up before the time limit"; await clock.advance(1); await settle({ rounds: 6, io: true }); return this.lost(s, to); }
  },
  observe(s, to) {
    const over = to.phase === "ok" || to.phase === "failed"; const e = s.res.error; const t = over || (to.phase === "req" && to.att > 0) ? tree(s.into) : null;
    return { state: s.res.state, requests: s.web.open().length,
      busy: to.phase === "winding" || to.stalled ? null : [...new Set(this.openOps(s).map((o) => o.i))].sort(),
      value: s.res.state === "ok" ? s.res.value.join() : null,
      tree: t && !to.stalled ? (to.phase === "ok" ? s.names.map((x, i) => (Buffer.isBuffer(t[x]) ? t[x].equals(s.data[i]) : t[x] ?? "missing")).concat(Object.keys(t).length) : over ? (existsSync(s.into) ? ["there", ...Object.keys(t)] : []) : Object.keys(t)) : null,
      error: s.res.state !== "error" ? null : ["break", "short", "corrupt"].includes(to.last) ? "any" : e.response?.status ?? e.code ?? (/timed out/.test(e.message) ? "timeout" : e.message) };
  },
  expect(m, act, s) {
    const over = m.phase === "ok" || m.phase === "failed";
    return { state: { ok: "ok", failed: "error" }[m.phase] ?? "pending", requests: m.phase === "req" ? 1 : 0,
      busy: m.phase === "winding" || m.stalled ? null : m.width === 1 ? [] : m.busy,
      value: m.phase === "ok" ? s.names.join() : null,
      tree: m.stalled ? null : m.phase === "ok" ? [...s.names.map(() => true), 2 * s.n] : m.phase === "failed" || (m.phase === "req" && m.att > 0) ? [] : null,
      error: m.phase !== "failed" ? null : { 404: 404, disk: "ENOSPC", late: "timeout" }[m.last] ?? "any" };
  },
  async finish(s, m) {
    if (m.stalled || (m.phase !== "ok" && m.phase !== "failed")) return;
    const n = s.web.calls.length; const before = Object.keys(tree(s.into)).join();
    await s.clock.advance(9_000_000, { rounds: 2 }); await settle({ rounds: 4, io: true });
    if (s.web.calls.length !== n || Object.keys(tree(s.into)).join() !== before) return "something happened after the end";
  },
  teardown(s) { return clear(s, async () => { for (let k = 0; k < 20 && this.openOps(s).length; k++) { await this.openOps(s)[0].finish(new Error("over")); await settle({ rounds: 2, io: true }); } }); },
});
const set = (...a) => `{${a.map((x) => (typeof x === "string" ? `"${x}"` : x)).join(", ")}}`;
const ENTRIES = ["plain", "dot", "deep", "dots", "dotsdir", "dotsonly", "empty", "big", "zeros", "beside", "contiguous", "long", "unicode", "space", "old", "exec", "sibling", "many", "dir", "dotdir", "up", "deepup", "abs", "updir", "upslash", "symlink", "symfile", "symup", "hardout", "hardin", "device", "fifo", "through", "oblique"];
const B = () => bundle("downloading-helpers/src/index.ts");
export default {
  property: "D02",
  assumptions: ["time, the network (axios) and fast-zlib are replaced by doubles; node-tar is the copy that npm brings along; files are real, within a scratch directory",
    "entries of one archive have distinct names; sequentially, hard and symbolic links are left to node-tar, and what it refuses may be reported"],
  models: [
    { name: "contents", spec: "TarContents", driver: async () => contents(await B()),
      runs: ({ tier }) => {
        const t = tier === "thorough"; const c = (m) => ({ ...m, Entries: set(...ENTRIES) }); const inv = { invariants: ["NothingOutside", "Complete", "Catalogued"] };
        return [{ name: "two", cfg: { constants: c({ Flows: set("raw"), Widths: set(1, 2), L: 2 }), ...inv }, maxPaths: t ? 9000 : 2350 },
          { name: "one", cfg: { constants: c({ Flows: set("gz", "raw"), Widths: set(1, 5), L: 1 }), ...inv }, maxPaths: 400 },
          ...(t ? [{ name: "three", cfg: { constants: c({ Flows: set("gz"), Widths: set(1, 3), L: 3 }), ...inv }, maxPaths: 30000 }] : [])];
      } },
    ...[2, 3].map((n) => ({ name: `schedule${n}`, spec: "TarExtract", driver: async () => schedule(await B(), n),
      runs: ({ tier }) => {
        const t = tier === "thorough"; const inv = { invariants: ["Bounded", "CompleteIfOk", "NarrowEnough"], properties: ["FailsOnlyAtTheEnd"] };
        return n === 2 ? [{ name: "retried", cfg: { constants: { Flows: set("raw", "gz"), Widths: set(1, 2), Retries: set(1), N: 2 }, ...inv }, maxPaths: t ? 9000 : 2600, walks: t ? 2000 : 50 }]
          : [{ name: "wide", cfg: { constants: { Flows: set("raw"), Widths: set(1, 2, 3), Retries: set(0), N: 3 }, ...inv }, maxPaths: t ? 9000 : 2600, walks: t ? 2000 : 50 },
            ...(t ? [{ name: "long", cfg: { constants: { Flows: set("gz"), Widths: set(2), Retries: set(2), N: 3 }, ...inv }, maxPaths: 9000, walks: 2000 }] : [])];
      } })),
  ],
};
