import { mkdtempSync, rmSync, writeFileSync } from "node:fs";
import { tmpdir } from "node:os"; import { join } from "node:path";
import { isDeepStrictEqual } from "node:util";
import { bundle } from "../lib/bundle.mjs";
import { FakeClock, settle } from "../lib/clock.mjs";
import { deferred, track, settleUntil } from "../lib/util.mjs";
import { Net, pLimitModule } from "../harness/net.mjs";

const URLS = { port: ["http://localhost:3000", "localhost", 3000, false], http: ["http://app.example", "app.example", 80, false], https: ["https://app.example/start?x=1", "app.example", 443, true], path: ["https://10.0.0.7:8443/a/b", "10.0.0.7", 8443, true], notUrl: ["not a url"], noPort: ["mailto:someone"] };
const RUN = (status) => ({ id: "run/1", status, url: "https://app/run-1", project: { id: "p1", name: "p", organization: { name: "o" } } });
const INFO = { url: "https://t1.tunnels.example", basicAuthUser: "user", basicAuthPassword: "password" };
const LACKS = { noUrl: "url", noUser: "basicAuthUser", noPassword: "basicAuthPassword" };
const INTERVAL = 5_000;

const driver = (inst) => ({
  async setup(init) {
    const { cfg } = init; const s = { cfg, dir: mkdtempSync(join(tmpdir(), "verif-u05-")), bad: [], closed: 0, n: 0 };
    const zip = join(s.dir, "app.zip"); writeFileSync(zip, "zip");
    s.clock = new FakeClock().install();
    const net = s.net = new Net();
    net.auto = [(c) => {
      if (c.kind === "request") { c.answer(cfg.comp === "zipFails" ? 403 : 200, "", { etag: "t" }); return true; }
      if (c.url.endsWith("request-asset-upload")) { c.answer(200, { uploadId: "up-1", uploadUrl: "https://s3.example/zip" }); return true; }
      if (c.url.endsWith("complete-asset-upload-and-maybe-trigger-run")) { const b = JSON.parse(c.body); if (b.createDeployment !== false || b.mustHaveBase || b.uploadId !== "up-1") s.bad.push("the companion assets made a deployment"); c.answer(200, { testRun: null }); return true; } }];
    s.tunnel = deferred();
    const localtunnel = (o) => { if (s.asked) s.bad.push("a second tunnel"); s.asked = o; return s.tunnel.promise; };
    const mod = inst({ ...net.doubles(), "p-limit": pLimitModule, "fast-zlib": {}, tar: {}, dockerode: { __esModule: true, default: class {} }, systeminformation: { mem: async () => ({ active: 1, total: 100 }) }, "@alwaysmeticulous/tunnels-client": { localtunnel } });
    s.keep = deferred();
    s.out = track(mod.executeRemoteTestRun({ apiToken: "token", appUrl: URLS[cfg.url][0], commitSha: "c0ffee", environment: "ci", isLockable: true,
      ...(cfg.keep === "yes" ? { keepTunnelOpenPromise: s.keep.promise } : {}), ...(cfg.comp === "none" ? {} : { companionAssets: { ...(cfg.comp === "empty" ? {} : { zip }), regex: "^/static" } }),
      secureTunnelHost: "https://tunnels.example", allowInvalidCert: true, proxyAllUrls: true, http2Connections: 3,
      onTunnelCreated: (d) => { s.told = (s.told ?? 0) + 1; if (!isDeepStrictEqual(d, INFO)) s.bad.push("told of another tunnel"); if (net.open().length) s.bad.push("told late"); },
      onTestRunCreated: (r) => { s.created = (s.created ?? 0) + 1; if (!isDeepStrictEqual(r, RUN("Scheduled"))) s.bad.push("told of another run"); },
      onProgressUpdate: (r) => { s.progress = r; }, onTunnelStillLocked: () => { s.still = true; } }));
    await settleUntil(() => s.asked || s.out.state !== "pending", { maxMs: 10_000 });
    return s;
  },
  calls: (s, what) => s.net.open((c) => c.url.includes(what)),
  async answer(s, what, status, body) {
    const o = this.calls(s, what); if (!o.length) return `no call of ${what}`;
    const c = o[s.n++ % o.length]; c.answer(status, body); await settle({ rounds: 3, io: true });
  },
  async polled(s, status) {
    s.progress = undefined; const r = RUN(status);
    const e = await (status === "broken" ? this.answer(s, "test-runs/", 400, { message: "poll" }) : this.answer(s, "test-runs/", 200, r));
    if (e) return e;
    if (status !== "broken" && !isDeepStrictEqual(s.progress, r)) return "the progress was not reported";
    if (status === "broken" && s.progress) return "progress reported";
  },
  async step(s, act, to, from) {
    if (act.n === "tunnel") {
      if (act.info === "refused") s.tunnel.reject(new Error("refused"));
      else s.tunnel.resolve({ ...INFO, ...(LACKS[act.info] ? { [LACKS[act.info]]: null } : {}), close: () => { s.closed++; } });
    } else if (act.n === "trigger") {
      const e = await (act.how === "broken" ? this.answer(s, "trigger-secure-tunnel", 400, { message: "trigger" }) : this.answer(s, "trigger-secure-tunnel", 200, act.how === "run" ? { testRun: RUN("Scheduled"), deploymentId: "dep-1" } : { deploymentId: "dep-1", ...(act.how === "message" ? { message: "no such commit" } : {}) }));
      if (e) return e;
    } else if (act.n === "polled") return this.polled(s, act.status);
    else if (act.n === "locked") {
      s.still = false;
      const e = await (act.how === "broken" ? this.answer(s, "is-locked", 400, { message: "lock" }) : this.answer(s, "is-locked", 200, act.how === "yes" ? "true" : "false"));
      if (e) return e;
      if (s.still !== (act.how === "yes")) return `told that it is still locked: ${s.still}`;
    } else if (act.n === "tick") await s.clock.advance(INTERVAL);
    else if (act.n === "stay") for (let i = 0; i < act.for; i++) { await s.clock.advance(INTERVAL); const e = await this.polled(s, "ExecutionError"); if (e) return e; }
    else if (act.n === "keep") { if (act.how === "done") s.keep.resolve(); else s.keep.reject(new Error("keep")); }
    await settle({ rounds: 3, io: true });
    if (s.out.state === "pending" && to.phase !== "tunnel") await settleUntil(() => this.calls(s, "").length || s.out.state !== "pending" || !["trigger", "lock", "ok", "failed"].includes(to.phase) || (to.phase === "lock" && !to.locks), { maxMs: 5_000 });
  },
  observe(s) {
    const trig = this.calls(s, "trigger-secure-tunnel").map((c) => JSON.parse(c.body));
    return { state: s.out.state, res: s.out.state === "ok" ? isDeepStrictEqual(s.out.value, { testRun: RUN(s.out.value?.testRun?.status) }) ? s.out.value.testRun.status : s.out.value : null,
      why: s.out.state === "error" ? s.out.error.response?.data?.message ?? s.out.error.message : null, closed: s.closed, told: s.told ?? 0, created: s.created ?? 0,
      asked: s.asked ? { localHost: s.asked.localHost, port: s.asked.port, localHttps: s.asked.localHttps, host: s.asked.host, apiToken: s.asked.apiToken, allowInvalidCert: s.asked.allowInvalidCert, proxyAllUrls: s.asked.proxyAllUrls, rewriteHostnameToAppUrl: s.asked.rewriteHostnameToAppUrl, http2Connections: s.asked.http2Connections } : null,
      trigger: trig, polls: this.calls(s, "test-runs/").filter((c) => c.method === "GET").map((c) => new URL(c.url).pathname), locks: this.calls(s, "is-locked").map((c) => new URL(c.url).searchParams.get("deploymentId")), bad: s.bad };
  },
  expect(m, act, s) {
    const [, localHost, port, localHttps] = URLS[m.cfg.url]; const got = this.observe(s);
    const why = { url: got.why?.includes(URLS[m.cfg.url][0]) ? got.why : "the address is invalid", zipFails: got.why?.includes("403") ? got.why : "the upload failed", empty: "Expected either folder or zip to be provided!", refused: "refused",
      info: got.why?.startsWith("Either Tunnel URL") ? got.why : "the tunnel lacks something", noRun: "Test run was not created", message: "no such commit", broken: "trigger", poll: "poll", lock: "lock", keep: "keep" };
    const opened = m.tunnel !== "none" && m.why !== "info";
    const run = ["run", "lock", "keep", "ok"].includes(m.phase) || ["poll", "lock", "keep"].includes(m.why);
    const fail = m.phase === "failed"; const asked = !fail || !["url", "zipFails", "empty"].includes(m.why);
    return { state: fail ? "error" : m.phase === "ok" ? "ok" : "pending", res: m.phase === "ok" ? m.res : null, why: fail ? why[m.why] : null, closed: m.tunnel === "closed" ? 1 : 0, told: opened ? 1 : 0, created: run ? 1 : 0,
      asked: asked ? { localHost, port, localHttps, host: "https://tunnels.example", apiToken: "token", allowInvalidCert: true, proxyAllUrls: true, rewriteHostnameToAppUrl: false, http2Connections: 3 } : null,
      trigger: m.phase === "trigger" ? [{ headSha: "c0ffee", tunnelUrl: INFO.url, basicAuthUser: "user", basicAuthPassword: "password", environment: "ci", isLockable: true, ...(m.cfg.comp === "zip" ? { companionAssetsInfo: { deploymentUploadId: "up-1", regex: "^/static", archiveType: "zip" } } : {}) }] : [],
      polls: Array(m.polls).fill(got.polls[0]?.includes("test-runs/run/1") || got.polls[0]?.includes("test-runs/run%2F1") ? got.polls[0] : "a poll of the run"), locks: Array(m.phase === "lock" ? m.locks : 0).fill("dep-1"), bad: [] };
  },
  async finish(s, m) {
    if (m.phase !== "ok" && m.phase !== "failed") return;
    for (const c of s.net.open()) c.answer(200, RUN("Running")); // those on their way may be retried otherwise
    await settle({ rounds: 3, io: true });
    const n = s.net.calls.length; await s.clock.advance(60_000); await settle({ rounds: 3 });
    if (s.net.calls.length !== n) return `the server is still asked after the end: ${s.net.calls.at(-1).url}`;
    if (s.closed > 1) return "closed twice";
  },
  async teardown(s) {
    s.tunnel.reject(new Error("over")); s.keep.resolve();
    for (let i = 0; i < 6; i++) { for (const c of s.net.open()) c.answer(400, { message: "over" }); await settle({ rounds: 3, io: true }); }
    s.clock.uninstall(); rmSync(s.dir, { recursive: true, force: true }); },
});
const set = (...a) => `{${a.map((x) => (typeof x === "string" ? `"${x}"` : x)).join(", ")}}`;
const INV = { invariants: ["OpenWhileNeeded", "ClosedInTheEnd", "OnlyAFinalStatus", "PatientWithErrors", "ReasonForFailure"], properties: ["EndIsFinal", "NeverReopened"] };
export default {
  property: "U05",
  assumptions: ["time, the network and the tunnel itself (T01, T02) are replaced by doubles"],
  models: [{
    name: "run", spec: "TunnelRun",
    driver: async () => { const inst = await bundle("remote-replay-launcher/src/execute-remote-test-run.ts"); return driver(inst); },
    runs: ({ tier }) => {
      const t = tier === "thorough"; const GOING = ["PreProcessing", "Scheduled", "Running", "PostProcessing"], ENDS = ["Success", "Failure", "Aborted", "Skipped", "Partial"];
      const base = { Urls: set("port"), Companions: set("none"), Keeps: set("no"), Going: set("Running"), Ends: set("Success"), Infos: set("full"), MaxOpen: 1, MaxTick: 3, Stays: "{}", Late: "FALSE" };
      return [
        { name: "configurations", cfg: { constants: { ...base, Urls: set(...Object.keys(URLS)), Companions: set("none", "zip", "zipFails", "empty"), Infos: set("full", "refused", ...Object.keys(LACKS)), MaxTick: 1 }, ...INV } },
        { name: "statuses", cfg: { constants: { ...base, Going: set(...GOING), Ends: set(...ENDS), MaxTick: 3 }, ...INV }, maxPaths: t ? undefined : 800 },
        { name: "overlapping", cfg: { constants: { ...base, Keeps: set("no", "yes"), MaxOpen: 2, MaxTick: t ? 5 : 4, Late: "TRUE" }, ...INV }, maxPaths: t ? undefined : 1500, walks: t ? 3000 : 500 },
        { name: "patience", cfg: { constants: { ...base, Stays: set(1, 56, 58), MaxTick: t ? 5 : 4, MaxOpen: 2 }, ...INV }, maxPaths: t ? undefined : 800, walks: t ? 2000 : 300, maxLen: 40 },
      ];
    },
  }],
};
