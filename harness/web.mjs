// axios, axios-retry, fast-zlib and extract-zip, as documented, over responses that the driver plays.
import { PassThrough, finished } from "node:stream";
import zlib from "node:zlib";
import { createRequire } from "node:module";
import { realpathSync, existsSync, mkdirSync } from "node:fs";
import { execFileSync } from "node:child_process";
import { dirname, join } from "node:path";

export class Web {
  constructor() { this.calls = []; this.auto = []; this.sources = new WeakMap(); }
  open(f = () => true) { return this.calls.filter((c) => c.open && f(c)); }
  #error(message, config, code, response) { return Object.assign(new Error(message), { name: "AxiosError", isAxiosError: true, config, code, response }); }
  #once(config) {
    const web = this;
    return new Promise((res, rej) => {
      const c = { url: String(config.url), method: (config.method ?? "GET").toUpperCase(), config, open: true, body: null, at: Date.now() };
      let timer;
      const stop = (e) => { if (c.open) { c.open = false; clearTimeout(timer); c.cancelled = true; rej(e); } else if (c.body && !c.body.destroyed && !c.body.readableEnded) { c.cancelled = true; c.body.emit("error", e); c.body.destroy(); } };
      if (config.timeout) timer = setTimeout(() => stop(web.#error(`timeout of ${config.timeout}ms exceeded`, config, "ECONNABORTED")), config.timeout);
      const onAbort = () => stop(web.#error("canceled", config, "ERR_CANCELED"));
      if (config.signal?.aborted) { queueMicrotask(onAbort); } else config.signal?.addEventListener("abort", onAbort);
      config.cancelToken?.on?.((m) => stop(web.#error(m, config, "ERR_CANCELED")));
      c.fail = (code) => { c.open = false; clearTimeout(timer); rej(web.#error(code, config, code)); };
      c.answer = (status, headers = {}, data) => { c.status = status;
        c.open = false; clearTimeout(timer);
        if (config.responseType === "stream") { c.body = new PassThrough(); finished(c.body, () => {}); data = data ?? c.body; if (Buffer.isBuffer(data)) { c.body.end(data); data = c.body; } }
        const response = { status, headers, data, config };
        if (status >= 200 && status < 300) res(response); else rej(web.#error(`Request failed with status code ${status}`, config, status >= 500 ? "ERR_BAD_RESPONSE" : "ERR_BAD_REQUEST", response));
      };
      c.break = () => c.body.destroy(Object.assign(new Error("aborted"), { code: "ECONNRESET" }));
      web.calls.push(c);
      for (const f of web.auto) if (f(c)) break;
    });
  }
  async #request(client, config) {
    const retry = client.retry; let cfg = { ...client.defaults, ...config };
    for (let n = 0; ; n++) {
      const t0 = Date.now();
      try { return await this.#once(cfg); } catch (e) {
        const again = retry && e.code !== "ECONNABORTED" && e.code !== "ERR_CANCELED" && (!e.response || e.response.status === 429 || e.response.status >= 500);
        if (!again || n >= (retry.retries ?? 3)) throw e;
        if (!retry.shouldResetTimeout && cfg.timeout) cfg = { ...cfg, timeout: Math.max(cfg.timeout - (Date.now() - t0), 1) };
      }
    }
  }
  axios() {
    const web = this;
    const make = (defaults = {}) => {
      const c = { defaults, retry: null };
      c.request = (config) => web.#request(c, config);
      for (const m of ["get", "head", "delete"]) c[m] = (url, config = {}) => c.request({ ...config, url, method: m });
      for (const m of ["post", "put"]) c[m] = (url, data, config = {}) => c.request({ ...config, url, data, method: m });
      return c;
    };
    const axios = Object.assign(make(), {
      create: make,
      isAxiosError: (e) => Boolean(e?.isAxiosError),
      CancelToken: { source: () => { const fs = []; const s = { token: { on: (f) => (s.reason ? f(s.reason) : fs.push(f)) }, cancel: (m) => { if (s.reason === undefined) { s.reason = m; for (const f of fs) f(m); } } }; return s; } },
    });
    return { __esModule: true, default: axios, ...axios };
  }
  doubles() {
    const axiosRetry = (client, opts = {}) => { client.retry = { retries: 3, ...opts }; };
    return { axios: this.axios(), "axios-retry": { __esModule: true, default: axiosRetry } };
  }
}

/** fast-zlib: synchronous, keeping the stream's state between the calls. */
class Fast {
  constructor(h, flush) { this.h = h; this.flush = flush; this.closed = false; h.on("error", () => {}); }
  process(chunk, flag = this.flush) {
    if (this.closed) throw new Error("closed");
    const { _handle } = this.h; const close = _handle.close; _handle.close = () => {};
    const hclose = this.h.close; this.h.close = () => {};
    let error;
    this.h.removeAllListeners("error"); this.h.on("error", (e) => { error = e; });
    try { return Buffer.from(this.h._processChunk(chunk, flag)); } finally { _handle.close = close; this.h.close = hclose; if (this.h._handle === null) this.h._handle = _handle; if (error) { this.closed = true; } }
  }
  close() { if (!this.closed) { this.closed = true; this.h.close(); } }
}
export const fastZlib = {
  InflateRaw: class extends Fast { constructor(o) { super(zlib.createInflateRaw(o), zlib.constants.Z_SYNC_FLUSH); } },
  DeflateRaw: class extends Fast { constructor(o) { super(zlib.createDeflateRaw(o), zlib.constants.Z_NO_FLUSH); } },
};
/** node-tar, from npm's own dependencies. */
export const nodeTar = () => {
  const tried = [];
  for (const npm of [() => realpathSync(join(dirname(process.execPath), "npm")), () => realpathSync(execFileSync("which", ["npm"], { encoding: "utf8" }).trim())]) {
    try { let d = dirname(npm()); for (; d !== "/"; d = dirname(d)) { const f = join(d, "node_modules/tar/package.json"); tried.push(f); if (existsSync(f)) return createRequire(f)("."); } } catch {}
  }
  throw new Error(`node-tar was not found: ${tried}`);
};
export const luxon = { Duration: { fromObject: (o) => ({ as: (u) => ((o.hours ?? 0) * 3600 + (o.minutes ?? 0) * 60 + (o.seconds ?? 0)) * (u === "seconds" ? 1 : 1000) }) } };
/** Brings the code under test to its end, so that nothing of it is left to interfere with what is run next. */
export async function wind(web, clock, out, { settle, ms = 4_000_000, before } = {}) {
  web.auto.unshift((c) => (c.answer(404, {}, "over"), true));
  for (let i = 0; i < 12 && out.state === "pending"; i++) {
    for (const c of web.calls) { if (c.open) c.answer(404, {}, "over"); c.body?.destroy(); }
    await before?.();
    await settle({ rounds: 4, io: true });
    if (out.state === "pending") await clock.advance(ms, { rounds: 2, io: true });
  }
}
