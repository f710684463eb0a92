import { mkdtempSync, rmSync, writeFileSync } from "node:fs";
import { tmpdir } from "node:os"; import { join } from "node:path";
import { bundle } from "../lib/bundle.mjs";
import { FakeClock, settle } from "../lib/clock.mjs";
import { track, settleUntil, deferred } from "../lib/util.mjs";
import { Net, pLimitModule } from "../harness/net.mjs";

const RA = { ra0: "0", ra2: "2", ra120: "120", rabad: "soon", ra400: "1" };
const httpDate = (ms) => new Date(Math.ceil(ms / 1000) * 1000).toUTCString();
const netError = (code) => Object.assign(new TypeError("fetch failed"), { cause: Object.assign(new Error(code), { code }) });

const driver = (inst) => ({
  async setup(init) {
    const { layer } = init; const s = { layer, dir: mkdtempSync(join(tmpdir(), "verif-u04-")), first: null, pushes: [] };
    s.file = join(s.dir, "f"); writeFileSync(s.file, "the file's content \u2713");
    s.clock = new FakeClock().install(); s.random = Math.random; Math.random = () => init.rnd / 10;
    const net = s.net = new Net();
    class Docker { getImage() { return { push: (_o, cb) => { s.pushes.push({ cb, open: true, kind: "push" }); } }; } modem = { followProgress: (stream, done) => stream(done) }; }
    const mod = inst({ ...net.doubles(), "p-limit": pLimitModule, "fast-zlib": {}, tar: {}, dockerode: { __esModule: true, default: Docker } });
    const c = mod.createClient({ apiToken: "token" });
    s.ops = [];
    const op = () => { const d = deferred(); s.ops.push({ kind: "op", d, open: true }); return d.promise; };
    s.out = track(({
      get: () => c.get("thing", { params: { a: "1" } }), post: () => c.post("thing", { b: "ü" }), put: () => c.put("thing", { b: [1] }, { headers: { "x-extra": "1" } }), delete: () => c.delete("thing", { timeout: 5_000 }),
      buffer: () => mod.uploadBufferToSignedUrl("https://s3.example/put", Buffer.from("the buffer"), { contentType: "text/plain" }),
      file: () => mod.retryTransientUploadErrors(() => mod.putFileToSignedUrl({ filePath: s.file, signedUrl: "https://s3.example/put", size: 22, contentType: "application/zip" })),
      push: () => mod.pushImage(new Docker(), "repo:tag", { username: "u" }),
      limited: () => mod.executeWithRetry(op, { maxRetries: 2, maxRetryDelay: 1_500 }), none: () => mod.executeWithRetry(op, { maxRetries: 0 }),
      large: () => mod.retryTransientUploadErrors(op, { maxAttempts: 4, baseDelayMs: 20_000 }), once: () => mod.retryTransientUploadErrors(op, { maxAttempts: 1 }),
    })[layer]());
    s.mod = mod; await this.until(s); return s;
  },
  calls: (s) => [...s.net.open(), ...s.pushes.filter((p) => p.open), ...s.ops.filter((o) => o.open)],
  until(s, maxMs = 5000) { return settleUntil(() => this.calls(s).length || s.out.state !== "pending", { maxMs }); },
  async step(s, act, to) {
    const { layer } = s;
    if (act.n === "wait") {
      if (act.lo > 0) { await s.clock.advance(act.lo - 1); await settle({ rounds: 2, io: layer === "file" }); if (this.calls(s).length) return "attempted again too early"; }
      await s.clock.advance(act.hi - act.lo + 2); await this.until(s);
      if (!this.calls(s).length) return "not attempted again in time";
      return;
    }
    const [c] = this.calls(s); if (!c) return "no attempt is under way";
    const api = ["get", "post", "put", "delete"].includes(layer);
    if (c.kind === "push") { c.open = false; const finish = (err, out) => c.cb(null, (done) => done(err, out));
      if (act.n === "ok") finish(null, [{ aux: { Digest: "sha256:1" } }]);
      else ({ stream: () => finish(new Error("stream")), daemon: () => finish(null, [{ aux: { Digest: "sha256:1" } }, { error: "quota" }]), nodigest: () => finish(null, [{ status: "Pushed" }]), denied: () => c.cb(new Error("denied")) })[act.kind](); }
    else if (c.kind === "op") { c.open = false;
      if (act.n === "ok") c.d.resolve({ fine: 1 });
      else if (layer === "large" || layer === "once") c.d.reject(s.err = /^E/.test(act.kind) ? Object.assign(new Error(act.kind), { code: act.kind }) : new s.mod.UploadError(+act.kind, "no"));
      else if (/^E/.test(act.kind)) c.d.reject(s.err = netError(act.kind));
      else c.d.reject(s.err = Object.assign(new Error("HTTP"), { response: { status: /^\d+$/.test(act.kind) ? +act.kind : 503, headers: this.header(act.kind) } })); }
    else if (act.n === "ok") c.answer(200, api ? { fine: 1 } : "", { etag: "tag" });
    else if (act.kind === "timeout") { const t = layer === "delete" ? 5_000 : 60_000; await s.clock.advance(c.at + t - 1 - Date.now()); await settle({ rounds: 2 }); if (!c.open) return "given up before the timeout"; await s.clock.advance(1); await settle({ rounds: 2 }); if (c.open) return "not given up at the timeout"; }
    else if (act.kind === "cut") {
      if (api) c.answer(200, new ReadableStream({ pull(k) { k.error(Object.assign(new TypeError("terminated"), { cause: Object.assign(new Error("other side closed"), { code: "UND_ERR_SOCKET" }) })); } }), { "content-type": "application/json" });
      else c.cut(500, "<Err"); }
    else if (/^ra/.test(act.kind)) c.answer(act.kind === "ra400" ? 400 : act.kind.length % 2 ? 429 : 503, { message: "busy" }, this.header(act.kind));
    else if (/^\d+$/.test(act.kind)) c.answer(+act.kind, +act.kind === 204 ? "" : api ? { message: "no" } : "no");
    else if (api) c.fail(act.kind === "ESSLCODE" ? netError("ERR_SSL_BAD_RECORD") : act.kind); else c.fail(act.kind);
    await settle({ rounds: 3, io: true });
    if (to.phase !== "wait") await settleUntil(() => s.out.state !== "pending", { maxMs: 5000 });
  },
  header(kind) { const now = Date.now(); const v = RA[kind] ?? { radate: httpDate(now + 5_000), rapast: httpDate(now - 60_000) }[kind]; return v === undefined ? {} : { "retry-after": v }; },
  observe(s) {
    const calls = this.calls(s); const c = calls[0];
    let same = null;
    if (c && c.kind !== "push" && c.kind !== "op") { const k = JSON.stringify([c.url, c.method, c.headers, String(c.body ?? "")]); s.first ??= k; same = k === s.first ? this.goodCall(s, c) : `an attempt that differs: ${k}`; }
    const v = s.out.value, e = s.out.error;
    return { calls: calls.length, same, state: s.out.state, value: s.out.state !== "ok" ? null : { buffer: v === "tag", file: v === undefined, push: v === undefined }[s.layer] ?? (v.data ?? v).fine === 1,
      error: s.out.state !== "error" ? null : s.err && e !== s.err ? "not the last failure" : e.response?.status ?? e.statusCode ?? (e.name === "AbortError" ? "timeout" : e.cause?.code ?? e.code ?? e.message) };
  },
  goodCall(s, c) {
    const api = { get: ["GET", "thing?a=1", ""], post: ["POST", "thing", '{"b":"ü"}'], put: ["PUT", "thing", '{"b":[1]}'], delete: ["DELETE", "thing", ""] }[s.layer];
    if (api) return c.method === api[0] && c.url === `https://app.meticulous.ai/api/${api[1]}` && String(c.body ?? "") === api[2] && c.headers.authorization === "token" && (s.layer !== "put" || c.headers["x-extra"] === "1");
    return c.method === "PUT" && c.url === "https://s3.example/put" && String(c.body) === (s.layer === "buffer" ? "the buffer" : "the file's content \u2713");
  },
  expect(m, act) {
    const k = m.last; const api = ["get", "post", "put", "delete"].includes(m.layer); const call = api || ["buffer", "file"].includes(m.layer);
    const error = m.phase !== "failed" ? null : m.layer === "push" ? { stream: "Docker push stream failed: stream", daemon: "Docker daemon reported an incomplete push: quota", nodigest: "Docker push ended before the registry confirmed a manifest digest. Last status: Pushed", denied: "Failed to push Docker image: denied" }[k]
      : /^\d+$/.test(k) ? +k : k === "ra400" ? 400 : /^ra/.test(k) ? (api && k.length % 2 ? 429 : 503) : k === "cut" ? (api ? "UND_ERR_SOCKET" : "ECONNRESET") : k === "ESSLCODE" ? "ERR_SSL_BAD_RECORD" : k;
    return { calls: m.phase === "call" ? 1 : 0, same: m.phase === "call" && call ? true : null, state: { ok: "ok", failed: "error" }[m.phase] ?? "pending", value: m.phase === "ok" ? true : null, error };
  },
  async finish(s, m) {
    if (m.phase !== "ok" && m.phase !== "failed") return;
    await s.clock.advance(200_000); await settle({ rounds: 2, io: true });
    if (this.calls(s).length) return "an attempt was made after the end";
  },
  async teardown(s) { s.clock.uninstall(); Math.random = s.random; rmSync(s.dir, { recursive: true, force: true }); },
});
const set = (...a) => `{${a.map((x) => (typeof x === "string" ? `"${x}"` : x)).join(", ")}}`;
const INV = { invariants: ["Bounded", "Spaced"], properties: ["FatalEndsIt", "NotGivenUp"] };
export default {
  property: "U04",
  assumptions: ["time, randomness, the network and the Docker daemon are replaced by doubles"],
  models: [{
    name: "retry", spec: "Retry",
    driver: async () => driver(await bundle({ b: "remote-replay-launcher/src/asset-upload-utils.ts", c: "client/src/index.ts", d: "client/src/client.ts", h: "remote-replay-launcher/src/docker-utils.ts", i: "common/src/index.ts" })
      .then((inst) => (doubles) => Object.assign({}, ...Object.values(inst(doubles))))),
    runs: ({ tier }) => {
      const t = tier === "thorough";
      const R = set(0, 5, ...(t ? [9] : []));
      const api = ["ra0", "ra2", "ra120", "radate", "rapast", "rabad", "ranone", "ra400", "500", "502", "504", "599", "400", "401", "404", "408", "timeout", "ECONNRESET", "ETIMEDOUT", "ECONNREFUSED", "ENOTFOUND", "UND_ERR_SOCKET", "UND_ERR_HEADERS_TIMEOUT", "UND_ERR_CONNECT_TIMEOUT", "EOTHER", "ESSLCODE", "cut"];
      const put = ["429", "500", "502", "503", "504", "400", "403", "404", "501", "204", "ECONNRESET", "ETIMEDOUT", "ECONNABORTED", "EAI_AGAIN", "EPIPE", "ECONNREFUSED", "ENOTFOUND", "cut"];
      return [
        { name: "api", cfg: { constants: { Layers: set("get", "post", "put", "delete"), Kinds: set(...api), Randoms: set(0, 9) }, ...INV }, maxPaths: t ? 60000 : 14000, walks: t ? 8000 : 500 },
        { name: "put", cfg: { constants: { Layers: set("buffer", "file"), Kinds: set(...put), Randoms: set(0, 9) }, ...INV }, maxPaths: t ? 40000 : 5000, walks: t ? 8000 : 500 },
        { name: "others", cfg: { constants: { Layers: set("push", "limited", "none", "large", "once"), Kinds: set("stream", "daemon", "nodigest", "denied", "ra2", "ra120", "radate", "rabad", "429", "500", "503", "400", "ECONNRESET", "EPIPE", "ECONNREFUSED", "EOTHER"), Randoms: set(0, 9) }, ...INV }, maxPaths: t ? 40000 : 4000 },
      ];
    },
  }],
};
