// A network for the Node packages: undici's fetch and http(s).request are collected as calls that the driver answers.
import http from "node:http"; import https from "node:https";
import { Writable, Readable } from "node:stream";
import { deferred } from "../lib/util.mjs";

export class Net {
  constructor() { this.calls = []; this.auto = []; }
  #add(c) { this.calls.push(c); for (const f of this.auto) if (f(c)) break; return c; }
  /** Calls still waiting for an answer. */
  open(f = () => true) { return this.calls.filter((c) => c.open && f(c)); }
  fetch = (input, init = {}) => {
    const d = deferred(); const net = this;
    const url = typeof input === "string" || input instanceof URL ? String(input) : input.url;
    const raw = init.headers ?? {}; const headers = {};
    for (const [k, v] of Object.entries(raw.entries ? Object.fromEntries(raw) : raw)) headers[k.toLowerCase()] = v;
    const c = { kind: "fetch", url, method: (init.method ?? "GET").toUpperCase(), headers, body: init.body, init, open: true, at: Date.now() };
    c.answer = (status, body, h = {}) => { c.open = false; const json = body !== undefined && typeof body !== "string" && !(body instanceof Uint8Array) && !(body instanceof ReadableStream);
      d.resolve(new Response(status === 204 || status === 304 ? null : json ? JSON.stringify(body) : body ?? "", { status, headers: { ...(json ? { "content-type": "application/json" } : {}), ...h } })); };
    c.fail = (code = "ECONNRESET") => { c.open = false; d.reject(code instanceof Error ? code : Object.assign(new TypeError("fetch failed"), { cause: Object.assign(new Error(code), { code }) })); };
    const sig = init.signal;
    const abort = () => { if (c.open) { c.open = false; c.aborted = true; d.reject(sig.reason ?? new DOMException("aborted", "AbortError")); } };
    if (sig?.aborted) { queueMicrotask(abort); } else sig?.addEventListener("abort", abort);
    net.#add(c);
    return d.promise;
  };
  request = (proto) => (a, b, cb0) => {
    const net = this;
    const isUrl = typeof a === "string" || a instanceof URL;
    const opts = isUrl ? b ?? {} : a; const cb = typeof b === "function" ? b : cb0;
    const url = isUrl ? String(a) : `${proto}://${opts.hostname ?? opts.host}${opts.port ? `:${opts.port}` : ""}${opts.path ?? "/"}`;
    const headers = {}; for (const [k, v] of Object.entries(opts.headers ?? {})) headers[k.toLowerCase()] = v;
    const bufs = [];
    const w = new Writable({ autoDestroy: false, write(x, _e, done) { bufs.push(Buffer.from(x)); done(); }, final(done) { c.body = Buffer.concat(bufs); c.complete = true; done(); net.#add(c); } });
    const c = { kind: "request", url, method: opts.method ?? "GET", headers, open: true, at: Date.now(), req: w, opts };
    w.setTimeout = () => w; w.setHeader = (k, v) => { headers[k.toLowerCase()] = v; }; w.setNoDelay = () => w; w.flushHeaders = () => {};
    w.abort = () => w.destroy();
    w.on("close", () => { if (!c.complete) { c.destroyed = true; } });
    c.answer = (status, body = "", h = {}) => { c.open = false; const r = Readable.from(body === "" ? [] : [Buffer.from(body)]); r.statusCode = status; r.headers = h; cb?.(r); w.emit("response", r); };
    // the connection breaks within the response: Node raises "error" on it only if someone listens
    c.cut = (status, part = "") => { c.open = false; const r = new Readable({ read() {} }); r.statusCode = status; r.headers = {}; if (part) r.push(part); cb?.(r); w.emit("response", r);
      setImmediate(() => { r.emit("aborted"); if (r.listenerCount("error")) r.destroy(Object.assign(new Error("aborted"), { code: "ECONNRESET" })); else r.destroy(); }); };
    c.fail = (code = "ECONNRESET") => { c.open = false; w.emit("error", Object.assign(new Error(code), { code })); };
    return w;
  };
  doubles() {
    const net = this; class Agent { constructor(o) { this.o = o; } } 
    const h = (m, p) => ({ ...m, default: m, request: net.request(p), Agent });
    return { undici: { fetch: net.fetch, Agent: class UAgent extends Agent {}, ProxyAgent: class UProxyAgent extends Agent {}, setGlobalDispatcher() {} },
      http: h(http, "http"), https: h(https, "https"), "proxy-agent": { ProxyAgent: class PProxyAgent extends Agent {} } };
  }
}
/** p-limit, as documented: at most n at once, started in order. */
export const pLimit = (n) => {
  const q = []; let active = 0;
  const next = () => { if (active < n && q.length) { active++; const [f, a, res, rej] = q.shift(); Promise.resolve().then(() => f(...a)).then(res, rej).finally(() => { active--; next(); }); } };
  const limit = (f, ...a) => new Promise((res, rej) => { q.push([f, a, res, rej]); queueMicrotask(next); });
  Object.defineProperties(limit, { activeCount: { get: () => active }, pendingCount: { get: () => q.length }, clearQueue: { value: () => { q.length = 0; } } });
  return limit;
};
export const pLimitModule = { __esModule: true, default: pLimit };
