// Everything around a tunnel worker, without a network: http2 clients at the server's side of the tunnel, and upstream
// servers that record where a request was sent.
import http from "node:http"; import https from "node:https"; import http2 from "node:http2"; import { Duplex, duplexPair } from "node:stream"; import { EventEmitter } from "node:events";
import { settle } from "../lib/clock.mjs";
const esm = (d, x = {}) => ({ __esModule: true, default: d, ...x });
export const logger = Object.fromEntries(["trace", "debug", "info", "log", "warn", "error"].map((k) => [k, () => {}]));
export class Upstream {
  constructor() {
    this.arrived = []; this.asked = []; this.down = new Set(); this.made = 0; this.sockets = [];
    this.server = http.createServer({ keepAliveTimeout: 0 }, (req, res) => {
      const a = { req, res, at: req.socket.target, local: req.socket.localAddressWanted, method: req.method, path: req.url, headers: req.headers, body: "", ended: false, aborted: false };
      req.on("data", (d) => { a.body += d; }); req.on("end", () => { a.ended = true; }); req.on("error", () => {}); res.on("close", () => { a.closed = true; if (!res.writableFinished) a.aborted = true; }); res.on("error", () => {});
      this.arrived.push(a);
    });
    this.server.on("clientError", (e, s) => s.destroy());
  }
  request(proto, real) {
    return (opts, cb) => {
      this.made++;
      const { agent, ...o } = typeof opts === "string" || opts instanceof URL ? { host: new URL(opts).hostname } : opts;
      const port = o.port ?? (proto === "https" ? 443 : 80); const target = `${proto}://${o.host ?? o.hostname}:${port}`;
      if (agent && agent.protocol !== `${proto}:`) throw Object.assign(new TypeError(`Protocol "${proto}:" not supported. Expected "${agent.protocol}"`), { code: "ERR_INVALID_PROTOCOL" });
      this.asked.push({ target, local: o.localAddress });
      const make = () => {
        if (this.down.has(target)) { const d = new Duplex({ read() {}, write() {} }); setImmediate(() => d.destroy(Object.assign(new Error(`connect ECONNREFUSED ${target}`), { code: "ECONNREFUSED" }))); return d; }
        const [a, b] = duplexPair(); b.target = target + (proto === "https" && agent?.options?.rejectUnauthorized === false ? "!" : ""); b.localAddressWanted = o.localAddress; b.setTimeout = () => b; b.setNoDelay = () => b; a.setTimeout = () => a; a.setNoDelay = () => a; a.setKeepAlive = () => a; a.ref = a.unref = () => a; b.on("error", () => {}); a.on("close", () => b.destroy()); b.on("close", () => a.destroy()); this.sockets.push(a, b);
        this.server.emit("connection", b); return a;
      };
      return http.request({ ...o, agent: undefined, localAddress: undefined, defaultPort: proto === "https" ? 443 : 80, createConnection: make }, cb);
    };
  }
  doubles() {
    class Ag extends http.Agent {} class Sag extends https.Agent {}
    class Cache { install(a) { (this.on ??= []).push(a); } }
    return { http: { ...http, request: this.request("http"), default: { ...http, request: this.request("http") } }, https: { ...https, request: this.request("https"), default: { ...https, request: this.request("https") } }, agentkeepalive: Object.assign(esm(Ag), { HttpsAgent: Sag, HttpAgent: Ag }), "cacheable-lookup": esm(Cache), "typed-emitter": esm(EventEmitter) };
  }
  close() { for (const s of this.sockets) s.destroy(); this.server.close(); }
}
/** A tunnel connection: [the worker's end, an http2 client at the other]. */
export const connection = () => {
  const [near, far] = duplexPair(); near.setNoDelay = () => near;
  const client = http2.connect("http://tunnel.example", { createConnection: () => far }); client.on("error", () => {});
  return { near, far, client };
};
export const ask = (client, headers, body) => {
  const s = client.request({ ":method": "GET", ...headers }, { endStream: body === undefined });
  const o = { s, status: null, headers: null, body: "", state: "open" };
  s.on("response", (h) => { o.status = h[":status"]; o.headers = h; }); s.on("data", (d) => { o.body += d; }); s.on("end", () => { o.ended = true; });
  s.on("error", (e) => { o.error = e.code; }); s.on("close", () => { o.state = s.rstCode === 0 && o.ended ? "ok" : "cut"; o.rst = s.rstCode; });
  if (body !== undefined && body !== null) s.end(body); 
  return o;
};
