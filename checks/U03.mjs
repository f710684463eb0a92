import { mkdtempSync, rmSync, writeFileSync } from "node:fs";
import { tmpdir } from "node:os"; import { join } from "node:path";
import { isDeepStrictEqual } from "node:util";
import { bundle } from "../lib/bundle.mjs";
import { FakeClock, settle } from "../lib/clock.mjs";
import { track, settleUntil } from "../lib/util.mjs";
import { Net, pLimitModule } from "../harness/net.mjs";

const API = "https://app.meticulous.ai/api/project-deployments/";
const RUN = { id: "run-1", url: "https://app/run-1", project: { name: "p", organization: { name: "o" } } };
const OVER = [{ path: "a.js", lowerChunk: { name: "one", versionId: "v1" }, upperChunk: { name: "two", versionId: "v2" } }];
const BODY = {
  assets: { uploadId: "up-1", commitSha: "c0ffee", baseSha: "ba5e", rewrites: [], createDeployment: true, archiveType: "zip" },
  chunks: { sourceDeploymentId: "dep-1", commitSha: "c0ffee", baseSha: "ba5e" },
  image: { uploadId: "img-1", commitSha: "c0ffee", baseSha: "ba5e", containerPort: 3000 },
};
BODY.lookup = BODY.chunks; BODY.imageNoWait = BODY.image;

const driver = (inst) => ({
  async setup(init) {
    const { flow } = init; const s = { flow, dir: mkdtempSync(join(tmpdir(), "verif-u03-")) };
    s.zip = join(s.dir, "app.zip"); writeFileSync(s.zip, "zip");
    s.clock = new FakeClock().install(); s.random = Math.random; Math.random = () => 0.5;
    const net = s.net = new Net();
    const auto = { "request-asset-upload": { uploadId: "up-1", uploadUrl: "https://s3.example/zip" }, "create-run-with-uploaded-asset-chunks": { sourceDeploymentId: "dep-1", overlaps: [] } };
    net.auto = [(c) => {
      if (c.kind === "request") { c.answer(200, "", { etag: "t" }); return true; }
      if (c.url.endsWith("registry/auth")) { c.answer(200, { uploadId: "img-1", imageReference: "harbor.example/p/a:v1", registryUrl: "harbor.example", robotAccountName: "r", robotAccountSecret: "s" }); return true; }
      const a = auto[c.url.slice(API.length)]; if (a) { c.answer(200, a); return true; } }];
    class Docker {
      async ping() {}
      getImage() { return { inspect: async () => ({ Id: "x" }), tag: async () => {}, push: (_o, cb) => cb(null, (done) => done(null, [{ aux: { Digest: "sha256:1" } }])) }; }
      modem = { followProgress: (stream, done) => stream(done) };
    }
    const mod = inst({ ...net.doubles(), "p-limit": pLimitModule, "fast-zlib": {}, tar: {}, dockerode: { __esModule: true, default: Docker } });
    const A = { apiToken: "token", commitSha: "c0ffee", baseSha: "ba5e", waitForBase: flow !== "imageNoWait" };
    const chunks = (m) => () => mod.runWithUploadedAssetChunks({ ...A, client: mod.createClient({ apiToken: "token" }), rewrites: [], assetReferencesManifest: m });
    s.out = track(({
      assets: () => mod.uploadAssetsFromZip({ ...A, zipPath: s.zip }),
      chunks: chunks([{ name: "one", versionId: "v1" }]), lookup: chunks([{ name: "one", versionId: "v1" }, { name: "two", versionLookup: "latest-in-history" }]),
      image: () => mod.uploadContainer({ ...A, localImageTag: "app:local", containerPort: 3000 }), imageNoWait: () => mod.uploadContainer({ ...A, localImageTag: "app:local", containerPort: 3000 }),
    })[flow]());
    await settleUntil(() => net.open().length || s.out.state !== "pending", { maxMs: 10_000 });
    return s;
  },
  async answer(s, status, body) { const c = s.net.open()[0]; c.answer(status, body); await settle({ rounds: 4, io: true }); },
  async step(s, act, to, from) {
    if (act.n === "wait") {
      await s.clock.advance(9_990, { io: false }); await settle({ rounds: 2 });
      if (s.net.open().length) return "asked again before the interval was over";
      await s.clock.advance(10); await settle({ rounds: 4, io: true }); return;
    }
    if (s.net.open().length !== 1) return `calls under way: ${s.net.open().map((c) => c.url)}`;
    if (act.lat) await s.clock.advance(act.lat * 10_000);
    if (!s.net.open().length) return "the call was given up";
    const msg = act.msg ? { message: `message ${act.msg}` } : {};
    if (act.n === "missing") await this.answer(s, 200, { baseNotFound: true, ...(act.ext ? { extraBasePollTimeoutMs: act.ext * 10_000 } : {}), ...msg });
    else if (act.n === "answer") await this.answer(s, 200, { ...(act.run ? { testRun: RUN } : {}), ...(act.both ? { baseNotFound: true } : {}), ...(act.over ? { overlaps: OVER, overlapsTruncated: true } : {}), ...msg });
    else if (act.n === "fail") await this.answer(s, 400, { message: "bad" });
    else { // every attempt of the client fails
      for (let i = 0; i < 4; i++) {
        if (s.net.open().length !== 1) return `after ${i} failed attempts: ${s.net.open().length} calls under way`;
        await this.answer(s, act.gateway ? 504 : 500, { message: "gateway" });
        if (i < 3) for (let t = 0; t < 40 && !s.net.open().length; t++) { await s.clock.advance(250); await settle({ rounds: 2 }); }
      }
      if (to.phase === "failed") return;
      const wait = 20_000 * 2 ** from.g;
      await s.clock.advance(wait / 2 - 10); await settle({ rounds: 2 });
      if (s.net.open().length) return "tried again too early";
      for (let t = 0; t < wait / 2 + 250 && !s.net.open().length; t += 250) { await s.clock.advance(250); await settle({ rounds: 2 }); }
      await settle({ rounds: 2, io: true });
    }
  },
  observe(s) {
    const v = s.out.value;
    const value = s.out.state === "ok" ? { run: isDeepStrictEqual(v.testRun, RUN) ? true : v.testRun === null || v.testRun === undefined ? false : v.testRun, msg: v.message ?? null, over: isDeepStrictEqual(v.overlaps, OVER) ? v.overlapsTruncated === true : v.overlaps ?? false } : null;
    return { state: s.out.state, value, error: s.out.state === "error" ? s.out.error.response?.status ?? s.out.error.message : null,
      calls: s.net.open().map((c) => { const { mustHaveBase, ...b } = JSON.parse(c.body); return [c.url.slice(API.length), mustHaveBase, isDeepStrictEqual(b, BODY[s.flow]) || b]; }) };
  },
  expect(m, act, s) {
    const path = { assets: m.phase === "initial" ? "complete-asset-upload-and-maybe-trigger-run" : "trigger-run", chunks: "trigger-run-with-uploaded-asset-chunks", lookup: "trigger-run-with-uploaded-asset-chunks", image: "complete-container-upload", imageNoWait: "complete-container-upload" }[m.flow];
    const got = this.observe(s).value;
    return { state: { ok: "ok", failed: "error" }[m.phase] ?? "pending",
      value: m.phase === "ok" ? { run: m.res.run, msg: m.res.msg === 9 ? (got?.msg?.includes("Timed out") ? got.msg : "a message about the time-out") : m.res.msg ? `message ${m.res.msg}` : null, over: m.res.over } : null,
      error: m.phase === "failed" ? (act.n === "fail" ? 400 : act.gateway ? 504 : 500) : null,
      calls: ["initial", "retry", "fallback"].includes(m.phase) ? [[path, m.phase !== "fallback" && m.flow !== "imageNoWait", true]] : [] };
  },
  async finish(s, m) {
    if (m.phase !== "ok" && m.phase !== "failed") return;
    const n = s.net.calls.length; await s.clock.advance(1_000_000); await settle({ rounds: 3 });
    if (s.net.calls.length !== n) return "a call was made after the end";
  },
  async teardown(s) { s.clock.uninstall(); Math.random = s.random; rmSync(s.dir, { recursive: true, force: true }); },
});
const set = (...a) => `{${a.map((x) => (typeof x === "string" ? `"${x}"` : x)).join(", ")}}`;
const INV = { invariants: ["AtMostOneFallback", "FallbackOnlyAfterTheWindow", "Bounded", "NeverWithoutBase"], properties: ["EndIsFinal"] };
const FLOWS = ["assets", "chunks", "lookup", "image"];
export default {
  property: "U03",
  assumptions: ["time and the network are replaced by doubles", "an answer arrives within a minute"],
  models: [{
    name: "wait", spec: "WaitForBase",
    driver: async () => driver(await bundle({ a: "remote-replay-launcher/src/index.ts", b: "remote-replay-launcher/src/asset-upload-utils.ts", c: "client/src/client.ts", h: "remote-replay-launcher/src/upload-container.ts", i: "remote-replay-launcher/src/run-with-uploaded-asset-chunks.ts" })
      .then((inst) => (doubles) => Object.assign({}, ...Object.values(inst(doubles))))),
    runs: ({ tier }) => {
      const t = tier === "thorough";
      const base = { Flows: set(...FLOWS, "imageNoWait"), Lats: set(0), Exts: set(0), Msgs: set(0), Bursts: "FALSE" };
      return [
        { name: "answers", cfg: { constants: { ...base, Lats: set(5), Exts: set(0, 13), Msgs: set(0, 1, 2), Bursts: "TRUE" }, ...INV }, maxPaths: t ? undefined : 4000, walks: t ? 3000 : 500 },
        { name: "quick answers", cfg: { constants: { ...base, Flows: set("assets", "lookup", ...(t ? ["chunks", "image"] : [])) }, ...INV }, maxPaths: t ? undefined : 1000 },
        { name: "mixed", cfg: { constants: { ...base, Lats: set(0, 2, 5), Exts: set(0, 7) }, ...INV }, maxPaths: t ? undefined : 2000, walks: t ? 4000 : 500, maxLen: 90 },
      ];
    },
  }],
};
