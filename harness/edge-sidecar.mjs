// Drives the edge recorder sidecar (Worker handler + Durable Object) from the outside: HTTP requests in,
// object-storage PUTs out, with the Durable Object runtime and the network replaced by doubles.
import { createHash, createHmac } from "node:crypto";
import { bundle } from "../lib/bundle.mjs";
import { FakeClock, settle, real } from "../lib/clock.mjs";
import { deferred, track } from "../lib/util.mjs";

export const loadSidecar = () => bundle("backend-recorder-sidecar-worker/src/index.ts");

const bytes = (d) => (d instanceof ArrayBuffer ? Buffer.from(d) : Buffer.from(d.buffer, d.byteOffset, d.byteLength));
const ab = (b) => b.buffer.slice(b.byteOffset, b.byteOffset + b.byteLength);
const algo = (a) => (typeof a === "string" ? a : a.name).replace("-", "").toLowerCase();
const subtleDouble = {
  digest: async (a, d) => ab(createHash(algo(a)).update(bytes(d)).digest()),
  importKey: async (_f, raw, alg) => ({ raw: Buffer.from(bytes(raw)), hash: algo(alg.hash ?? alg) }),
  sign: async (_a, key, d) => ab(createHmac(key.hash, key.raw).update(bytes(d)).digest()),
};
const realSubtle = { digest: crypto.subtle.digest, importKey: crypto.subtle.importKey, sign: crypto.subtle.sign };

/** WebCrypto without its threads. */
export const subtle = {
  install() { for (const k of ["digest", "importKey", "sign"]) Object.defineProperty(crypto.subtle, k, { value: subtleDouble[k], configurable: true, writable: true }); },
  restore() { for (const k of ["digest", "importKey", "sign"]) Object.defineProperty(crypto.subtle, k, { value: realSubtle[k], configurable: true, writable: true }); },
};

export class DurableStorage {
  static failAll = false;
  constructor() { this.entries = new Map(); this.alarmAt = null; this.freezeAt = undefined; this.frozen = false; this.failPuts = 0; this.puts = 0; }
  /** freezeAt: "put" | "delete" | "setAlarm": the instance dies just before the first such operation takes effect. */
  #gate(op) {
    if (this.frozen || this.freezeAt === op) { this.frozen = true; return new Promise(() => {}); }
    if (this.failNext === op) { this.failNext = undefined; return Promise.reject(new Error("storage is unavailable")); }
    return undefined;
  }
  get(k) {
    const g = this.#gate("get"); if (g) return g;
    if (Array.isArray(k)) return Promise.resolve(new Map(k.filter((x) => this.entries.has(x)).map((x) => [x, structuredClone(this.entries.get(x))])));
    return Promise.resolve(structuredClone(this.entries.get(k)));
  }
  put(k, v) {
    const g = this.#gate("put"); if (g) return g;
    this.puts++;
    if (DurableStorage.failAll) return Promise.reject(new Error("storage is unavailable"));
    if (this.failPuts > 0) { this.failPuts--; return Promise.reject(new Error("storage is unavailable")); }
    const e = typeof k === "string" ? { [k]: v } : k;
    if (Object.keys(e).length > 128) return Promise.reject(new Error("too many keys in one put"));
    for (const [key, val] of Object.entries(e)) if (Buffer.byteLength(JSON.stringify(val) ?? "") > 2 * 1024 * 1024) return Promise.reject(new Error(`value of ${key} is too large`));
    for (const [key, val] of Object.entries(e)) this.entries.set(key, structuredClone(val));
    return Promise.resolve();
  }
  delete(k) {
    const g = this.#gate("delete"); if (g) return g;
    const l = Array.isArray(k) ? k : [k];
    if (l.length > 128) return Promise.reject(new Error("too many keys in one delete"));
    let n = 0; for (const x of l) if (this.entries.delete(x)) n++;
    return Promise.resolve(Array.isArray(k) ? n : n > 0);
  }
  deleteAll() { const g = this.#gate("delete"); if (g) return g; this.entries.clear(); return Promise.resolve(); }
  list({ prefix = "", limit = Infinity, reverse = false, start, startAfter, end } = {}) {
    const g = this.#gate("list"); if (g) return g;
    let m = [...this.entries].filter(([k]) => k.startsWith(prefix) && (start === undefined || k >= start) && (startAfter === undefined || k > startAfter) && (end === undefined || k < end)).sort(([a], [b]) => (a < b ? -1 : 1));
    if (reverse) m.reverse();
    return Promise.resolve(new Map(m.slice(0, limit).map(([k, v]) => [k, structuredClone(v)])));
  }
  getAlarm() { return this.#gate("getAlarm") ?? Promise.resolve(this.alarmAt); }
  setAlarm(t) { const g = this.#gate("setAlarm"); if (g) return g; this.alarmAt = Number(t); return Promise.resolve(); }
  deleteAlarm() { const g = this.#gate("setAlarm"); if (g) return g; this.alarmAt = null; return Promise.resolve(); }
  transaction(f) { return f(this); }
}

export class EdgeWorld {
  constructor(mod, { shards = 1, env = {}, autoUpload = false } = {}) {
    this.mod = mod; this.clock = new FakeClock(Date.UTC(2026, 4, 13, 10, 0, 0)).install();
    this.uploads = [];   // pending PUTs: {key, body, reply}
    this.log = [];       // settled PUTs: {key, body, ok}
    this.cognito = []; this.started = []; // keys of all PUTs ever sent
    this.cognitoHold = false; this.pendingCognito = [];
    this.autoUpload = autoUpload;
    this.objects = new Map();
    this.env = {
      METICULOUS_RECORDING_TOKEN: "tok_0123456789abcdef", METICULOUS_PROJECT_NAME: "my-app", METICULOUS_LOG_LEVEL: "silent",
      METICULOUS_SIDECAR_SHARDS: String(shards), ...env,
    };
    const world = this;
    if (!("METICULOUS_SESSION" in env)) this.env.METICULOUS_SESSION = {
      idFromName: (n) => n,
      get: (n) => ({ fetch: (r) => world.object(n).instance.fetch(r) }),
    };
    subtle.install();
    globalThis.fetch = (u, init) => this.#network(u, init);
  }
  object(name = "recorder-0") {
    let o = this.objects.get(name);
    if (!o) { o = { storage: new DurableStorage(), alarms: [] }; this.objects.set(name, o); this.#build(o); }
    return o;
  }
  #build(o) {
    // a crashed instance keeps its dead storage handle; the durable contents move to a new one
    const s = new DurableStorage(); s.entries = o.storage.entries; s.alarmAt = o.storage.alarmAt;
    if (o.instance) { o.storage.frozen = true; o.storage.entries = new Map(); }
    o.storage = s;
    o.instance = new this.mod.MeticulousRecorderSession({ storage: s, blockConcurrencyWhile: (f) => f(), waitUntil() {}, id: { toString: () => "id" } }, this.env);
    o.dead = false;
  }
  crash(name = "recorder-0", { alarmRunning = false } = {}) {
    const o = this.object(name);
    this.#build(o);
    if (alarmRunning && o.storage.alarmAt === null) o.storage.alarmAt = this.clock.now; // an alarm that did not finish is retried
    for (const u of this.uploads) u.orphan = true;
    this.uploads = [];
  }
  #network(u, init = {}) {
    const url = new URL(typeof u === "string" ? u : u.url ?? String(u));
    const text = init.body === undefined ? "" : typeof init.body === "string" ? init.body : Buffer.from(init.body).toString("utf8");
    if (url.hostname.startsWith("cognito-identity.")) {
      const target = new Headers(init.headers).get("x-amz-target") ?? "";
      this.cognito.push(target);
      const answer = () => target.endsWith("GetId")
        ? Response.json({ IdentityId: "us-west-2:identity" })
        : Response.json({ Credentials: { AccessKeyId: "AK" + this.cognito.length, SecretKey: "SK", SessionToken: "ST", Expiration: (this.clock.now + (this.credLifeMs ?? 3_600_000)) / 1000 } });
      if (!this.cognitoHold) return Promise.resolve(answer());
      const d = deferred();
      this.pendingCognito.push({ target, ok: () => d.resolve(answer()), fail: (st) => (st ? d.resolve(new Response("no", { status: st })) : d.reject(new TypeError("fetch failed"))) });
      return d.promise;
    }
    const key = decodeURIComponent(url.pathname.slice(1));
    this.started.push(key);
    const d = deferred();
    const rec = { key, url: url.href, method: init.method, headers: Object.fromEntries(new Headers(init.headers)), body: text ? JSON.parse(text) : undefined };
    rec.ok = () => { this.log.push({ key: rec.key, body: rec.body, ok: true }); d.resolve(new Response("", { status: 200 })); };
    rec.fail = (st) => { this.log.push({ key: rec.key, body: rec.body, ok: false }); st ? d.resolve(new Response("denied", { status: st })) : d.reject(new TypeError("fetch failed")); };
    /** The write takes effect but the answer never arrives (crash). */
    rec.silentOk = () => { this.log.push({ key: rec.key, body: rec.body, ok: true }); };
    if (this.autoUpload) { rec.ok(); return d.promise; }
    this.uploads.push(rec);
    return d.promise;
  }
  take() { return this.uploads.shift(); }
  settle() { return settle({ rounds: 6 }); }
  post(events, { headers, raw, path = "/v1/events", method = "POST", length } = {}) {
    const body = raw ?? JSON.stringify({ events });
    const h = { "content-type": "application/json", "x-meticulous-sidecar-protocol-version": "2", ...headers };
    for (const k of Object.keys(h)) if (h[k] === undefined) delete h[k];
    const req = new Request(`https://sidecar.invalid${path}`, { method, headers: h, ...(method === "GET" ? {} : { body }) });
    if (length !== undefined) { const g = req.headers; g.set("content-length", String(length)); }
    return track(this.mod.default.fetch(req, this.env));
  }
  flush() { return track(this.mod.default.fetch(new Request("https://sidecar.invalid/v1/flush", { method: "POST" }), this.env)); }
  fireAlarm(name = "recorder-0", { jump = true } = {}) {
    const o = this.object(name);
    if (o.storage.alarmAt === null) return undefined;
    if (jump) this.clock.now = Math.max(this.clock.now, o.storage.alarmAt);
    o.storage.alarmAt = null;
    return track(o.instance.alarm());
  }
  close() {
    DurableStorage.failAll = false;
    this.clock.uninstall(); globalThis.fetch = real.fetch;
    subtle.restore();
  }
}

let n = 0;
export const event = (tag, over = {}) => ({
  kind: "inbound", requestId: `req-${tag}`, frontendSessionId: String(tag), traceId: "a".repeat(32), serverSpanId: (++n).toString(16).padStart(16, "0"),
  method: "GET", url: `https://app.example/page/${tag}`, requestHeaders: {}, statusCode: 200, startTimeMs: 1000, endTimeMs: 1050, ...over,
});
/** The tags of the events in an uploaded chunk, in order. */
export const tagsOf = (body) => (body?.spans ?? []).map((s) => s.frontendSessionId);
