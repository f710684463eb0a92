import { EventEmitter } from "node:events";
import { mkdtempSync, rmSync } from "node:fs";
import { tmpdir } from "node:os"; import { join } from "node:path";
import { bundle } from "../lib/bundle.mjs";
import { FakeClock, settle } from "../lib/clock.mjs";
import { track } from "../lib/util.mjs";
import { Net, pLimitModule } from "../harness/net.mjs";

const CHUNK = 4, S3 = "https://s3.example/";
const byte = (k) => (k * 31 + 7) & 255;
const driver = (inst) => ({
  async setup(init) {
    const s = { init, produced: 0, dir: mkdtempSync(join(tmpdir(), "verif-u01-")) };
    s.clock = new FakeClock().install(); s.random = Math.random; Math.random = () => 0.5;
    const net = s.net = new Net();
    const tar = s.tar = new EventEmitter();
    // what the compressor hands out is chosen by the model
    class DeflateRaw { process(chunk, flag) { if (flag !== undefined) return s.take(s.final); return s.take(chunk.out); } }
    s.take = (n) => { const b = Buffer.alloc(n); for (let i = 0; i < n; i++) b[i] = byte(s.produced++); return b; };
    const mod = inst({ ...net.doubles(), "p-limit": pLimitModule, "fast-zlib": { DeflateRaw }, tar: { create: (...a) => { s.tarArgs = a; return tar; }, c: () => tar } });
    const opts = { apiToken: "token", commitSha: "c0ffee" };
    s.out = track(init.src === "tar" ? mod.uploadAssetsFromTarStream({ ...opts, tarStream: tar }) : mod.uploadAssets({ ...opts, appDirectory: s.dir }));
    await settle();
    const c = net.open()[0];
    c.answer(200, { uploadId: "up", awsUploadId: "aws", uploadChunkSize: CHUNK, uploadPartUrls: Array.from({ length: init.signed }, (_, i) => `${S3}signed/${i + 1}`) });
    await settle();
    return s;
  },
  async step(s, act) {
    const { net, tar, clock } = s;
    const asking = (i) => net.open((c) => c.url.includes("request-upload-part") && JSON.parse(c.body).partNumber === i)[0];
    const sending = (i) => net.open((c) => c.kind === "request" && (c.url === `${S3}signed/${i}` || c.url === `${S3}given/${i}`))[0];
    if (act.n === "feed") tar.emit("data", { out: act.size });
    else if (act.n === "end") { s.final = act.size; tar.emit("end"); }
    else if (act.n === "break") (s.final = 1), tar.emit("error", (s.err = new Error("tar failed")));
    else if (act.n === "address") asking(act.i).answer(200, { uploadPartUrl: `${S3}given/${act.i}` });
    else if (act.n === "refuse") asking(act.i).answer(400, { message: "no" });
    else if (act.n === "stored") sending(act.i).answer(200, "", { etag: `tag-${act.i}` });
    else if (act.n === "reject") sending(act.i).answer(403, "denied");
    else if (act.n === "hiccup") { if (act.k % 2) sending(act.i).answer(503, "slow down"); else sending(act.i).fail("ECONNRESET"); await settle(); if (act.k < 5) await clock.advance(200 * 2 ** (act.k - 1) * 1.5); }
    else { const c = net.open((c) => c.url.includes("complete-asset-upload"))[0]; if (!c) return "completion is not reported"; c.answer(200, { testRun: { id: "tr" } }); }
    await settle({ rounds: 6 });
  },
  observe(s, m) {
    const { net } = s;
    const asking = net.open((c) => c.url.includes("request-upload-part")).map((c) => { const b = JSON.parse(c.body); return { i: b.partNumber, size: b.size, of: [b.uploadId, b.awsUploadId, b.archiveType] }; }).sort((a, b) => a.i - b.i);
    const sends = (cs) => cs.filter((c) => c.kind === "request").map((c) => { const [, how, i] = /\/(signed|given)\/(\d+)$/.exec(c.url) ?? []; const p = m.parts[i - 1];
      return { i: Number(i), how, put: c.method, n: Number(c.headers["content-length"]), size: c.body.length, same: !!p && c.body.every((x, k) => x === byte(p.from + k)) }; }).sort((a, b) => a.i - b.i);
    const done = net.calls.filter((c) => c.url.includes("complete-asset-upload"));
    return { asking, sending: sends(net.open()), ever: sends(net.calls).every((x) => x.same && x.size === x.n), completed: done.map((c) => { const b = JSON.parse(c.body); return { uploadId: b.uploadId, parts: b.multipartUploadInfo, sha: b.commitSha, type: b.archiveType }; }),
      result: s.out.state };
  },
  expect(m, _a, s) {
    const w = (st) => m.parts.map((p, k) => ({ ...p, i: k + 1 })).filter((p) => p.st === st);
    const anyFailed = m.parts.some((p) => p.st === "failed");
    return { asking: w("asking").map((p) => ({ i: p.i, size: p.size, of: ["up", "aws", "tar.d"] })),
      sending: w("sending").map((p) => ({ i: p.i, how: p.own ? "signed" : "given", put: "PUT", n: p.size, size: p.size, same: true })), ever: true,
      completed: m.result === "completing" || m.result === "done" ? [{ uploadId: "up", parts: { awsUploadId: "aws", eTags: m.parts.map((_, k) => `tag-${k + 1}`) }, sha: "c0ffee", type: "tar.d" }] : [],
      // a failed part may end the upload before the archive has been read
      result: m.result === "done" ? "ok" : m.result === "failed" ? "error" : m.result === "pending" && anyFailed && s.out.state === "error" ? "error" : "pending" };
  },
  async teardown(s) { s.clock.uninstall(); Math.random = s.random; rmSync(s.dir, { recursive: true, force: true }); },
});
const set = (...a) => `{${a.map((x) => `"${x}"`).join(", ")}}`;
const BASE = { Chunk: CHUNK, Max: 4, SignedSet: "{2}", Feeds: "{4}", Finals: "{1}", Sources: set("tar"), MaxParts: 3, MaxHic: 0, Faults: "{}", MaxLen: 8, Order: '"any"' };
const INV = { invariants: ["Contiguous", "FullSize", "Bounded", "OnlyComplete", "OneAddressEach"] };
export default {
  property: "U01",
  assumptions: ["the compression library and the archive library are replaced: the model chooses how many bytes come out of them, and when", "p-limit starts its tasks in order and bounds them, as documented"],
  models: [{
    name: "multipart", spec: "Multipart",
    driver: async () => driver(await bundle("remote-replay-launcher/src/asset-upload-utils.ts")),
    runs: ({ tier }) => {
      const t = tier === "thorough";
      return [
        { name: "slicing", cfg: { constants: { ...BASE, SignedSet: "{0, 1, 9}", Feeds: "{0, 1, 3, 4, 5, 7}", Finals: "{0, 2, 4, 5}", Sources: set("tar", "folder"), MaxLen: t ? 7 : 5 }, ...INV }, maxPaths: t ? 20000 : 3000 },
        { name: "order", cfg: { constants: { ...BASE, SignedSet: "{0, 3, 9}", MaxParts: 6, MaxLen: t ? 16 : 12, Finals: "{0, 1}" }, ...INV }, maxPaths: t ? 15000 : 3000 },
        { name: "faults", cfg: { constants: { ...BASE, SignedSet: "{0, 1, 2}", MaxParts: 2, Faults: set("break", "refuse", "reject"), MaxHic: 2, MaxLen: t ? 9 : 7 }, ...INV }, maxPaths: t ? 20000 : 3000 },
        t && { name: "many parts", cfg: { constants: { ...BASE, SignedSet: "{0, 11}", MaxParts: t ? 25 : 12, MaxLen: 90, Finals: "{0, 1}", Order: '"last"' }, ...INV }, maxPaths: t ? 3000 : 400 },
        { name: "many parts in turn", cfg: { constants: { ...BASE, SignedSet: "{0, 11}", MaxParts: t ? 105 : 12, MaxLen: 400, Finals: "{0, 1}", Order: '"first"' }, ...INV }, maxPaths: t ? 2000 : 300 },
        { name: "exhaustion", cfg: { constants: { ...BASE, SignedSet: "{0, 1}", MaxParts: 1, MaxHic: 5, Faults: set("refuse"), MaxLen: 9 }, ...INV }, maxPaths: t ? undefined : undefined },
      ].filter(Boolean);
    },
  }],
};
