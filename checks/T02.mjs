import { EventEmitter } from "node:events"; import { duplexPair } from "node:stream"; import http2 from "node:http2";
import { bundle } from "../lib/bundle.mjs";
import { FakeClock, settle } from "../lib/clock.mjs";
import { track, settleUntil } from "../lib/util.mjs";
import { Net } from "../harness/net.mjs";
import { Upstream, ask, logger } from "../harness/tunnel.mjs";
const set = (...a) => `{${a.map((x) => (typeof x === "string" ? `"${x}"` : x)).join(", ")}}`;

/** What a package sees as its process. */
const proc = (env) => Object.assign(new EventEmitter(), { env, exits: [], sent: [], exit(c) { this.exits.push(c); }, send(m) { this.sent.push(m); return true; }, versions: { node: "22.0.0" }, platform: "linux", argv: [], argv0: "node", pid: 1, cwd: () => "/", nextTick: process.nextTick, hrtime: process.hrtime, stdout: process.stdout, stderr: process.stderr });
const PASS = "p4ss phrase"; const HOST = "tunnels.example"; const PORT = 9443;
/** net and tls over in-memory streams, whose other ends the driver holds. */
class Wires {
  constructor() { this.made = []; }
  #make(what, opts) {
    const [near, far] = duplexPair(); const w = { what, opts, near, far, heard: Buffer.alloc(0) }; near.setNoDelay = () => near; near.setKeepAlive = () => near; near.setTimeout = () => near; near.ref = near.unref = () => near;
    far.on("data", (w.listen = (d) => { w.heard = Buffer.concat([w.heard, d]); })); far.on("end", () => { w.ended = true; if (!far.writableEnded) far.end(); }); far.on("error", () => {}); near.once("close", () => { w.closed = true; if (!near.destroyed) near.destroy(); far.destroy(); opts.socket?.destroy(); });
    opts.socket?.once("close", () => near.destroy());
    this.made.push(w); return near;
  }
  #opts(a) { return typeof a[0] === "object" ? a[0] : { port: a[0], host: a[1] }; }
  doubles() {
    const net = (...a) => this.#make("net", this.#opts(a)); const tls = (...a) => this.#make("tls", this.#opts(a));
    return { net: { default: { connect: net, createConnection: net }, __esModule: true, connect: net, createConnection: net }, tls: { default: { connect: tls }, __esModule: true, connect: tls } };
  }
  last() { return this.made.at(-1); }
}
const ANSWER = { ok: "AUTH OK", no: "AUTH FAIL", line: "AUTH OK\n", lower: "auth ok", part: "AUTH", prefix: "AUTH OKAY", suffix: "NOT AUTH OK", http: "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n", blank: " " };
const PROXY = { established: "HTTP/1.1 200 Connection established\r\n\r\n", ok: "HTTP/1.1 200 OK\r\nvia: x\r\n\r\n", login: "HTTP/1.1 407 Proxy Authentication Required\r\n\r\n", gateway: "HTTP/1.1 502 Bad Gateway\r\n\r\n", garbage: "what?", length: "HTTP/1.1 407 Proxy Authentication Required\r\ncontent-length: 1200\r\n\r\n" };
const BAD = { refused: "ECONNREFUSED", reset: "ECONNRESET", certificate: "CERT_HAS_EXPIRED" };

const handshake = (sockets, workers) => ({
  observeInit: false, async setup(init) {
    const s = { wires: new Wires(), up: new Upstream(), p: proc(init.route.startsWith("p") && init.route !== "plain" ? { HTTPS_PROXY: "http://proxy.example:3128" } : {}), kind: init.kind, tls: init.route.endsWith("tls"), served: 0, heard: "", failures: 0 };
    s.up.server.on("request", (q, r) => { r.end("hello"); });
    s.error = console.error; console.error = () => {}; s.clock = new FakeClock().install();
    const o = { useTls: s.tls, remoteHost: HOST, multiplexingRemotePort: PORT, tunnelPassphrase: PASS };
    if (init.kind === "worker") { s.o = { ...o, workerId: 1, localHost: "app.local", localPort: 3000, localHttps: false, allowInvalidCert: false, proxyAllUrls: false, rewriteHostnameToAppUrl: false, enableDnsCache: false }; workers({ ...s.wires.doubles(), ...s.up.doubles(), cluster: { __esModule: true, default: { isWorker: true }, isWorker: true }, "cacheable-lookup": s.up.doubles()["cacheable-lookup"] }, { process: s.p }); }
    else s.out = track(sockets(s.wires.doubles(), { process: s.p }).openSocket({ ...o, sendAuthOkAck: init.kind === "acking", logger, onError: () => { s.failures++; }, onClose: () => {} }));
    await settle({ rounds: 4 }); return s;
  },
  async step(s, a, to, from) {
    const w = s.wires.last();
    if (a.n === "told") s.p.emit("message", { type: "init", options: s.o });
    else if (a.n === "strange") s.p.emit("message", { type: "other" });
    else if (a.n === "untold") { await s.clock.advance(9_999); if (s.p.exits.length) return "the worker gave up before its time"; await s.clock.advance(2); }
    else if (a.n === "connected") { w.near.connecting = false; w.near.emit("connect"); }
    else if (a.n === "secured") { w.near.authorized = true; w.near.emit("secureConnect"); }
    else if (a.n === "proxy") w.far.write(PROXY[a.k]);
    else if (a.n === "answer") w.far.write(ANSWER[a.k]);
    else if (a.n === "late") { if (!w.far.destroyed && !w.far.writableEnded) w.far.write("AUTH OK"); }
    else if (a.n === "carry") {
      if (s.kind !== "worker") { const v = `more ${s.served};`; s.sent = (s.sent ?? "") + v; w.far.write(v); if (!s.sock) { if (s.out.value.readableFlowing) return "what follows the acceptance is read by nobody"; s.sock = s.out.value; await settle({ rounds: 2 }); s.sock.on("data", (d) => { s.heard += d; }); s.sock.resume(); } await settle({ rounds: 3 }); if (s.heard === s.sent) s.served++; }
      else { const o = ask((s.client ??= this.client(s, w)), { ":path": `/${s.served}` }); await settleUntil(() => o.state !== "open", { maxMs: 3000 }); if (o.body === "hello") s.served++; }
    } else if (a.n === "fails") w.near.destroy(a.k === "closed" ? undefined : Object.assign(new Error(a.k), { code: BAD[a.k] }));
    await settle({ rounds: 6 });
    if (a.n === "connected" && to.ph === "proxy") { const t = String(w.heard); w.heard = Buffer.alloc(0); if (!t.startsWith(`CONNECT ${HOST}:${PORT} HTTP/1.1\r\n`) || !t.endsWith("\r\n\r\n")) return `the proxy is asked for ${JSON.stringify(t)}`; }
  },
  client(s, w) {
    const i = w.heard.indexOf("AUTH OK ACK") + 11; const rest = w.heard.subarray(i); w.heard = w.heard.subarray(0, i); w.far.removeListener("data", w.listen); w.far.pause(); if (rest.length) w.far.unshift(rest);
    const c = http2.connect(`http://${HOST}`, { createConnection: () => w.far }); c.on("error", () => {}); return c;
  },
  observe(s, to) {
    const ws = s.wires.made; const t = ws.map((w) => String(w.heard)).join(""); const dead = s.kind === "worker" && s.p.exits.length > 0;
    return {
      dialed: ws.map((w) => (w.opts.socket ? `tls over ${ws.findIndex((x) => x.near === w.opts.socket)} for ${w.opts.servername}` : `${w.what} ${w.opts.host}:${w.opts.port}`) + (w.what === "tls" ? ` ${w.opts.rejectUnauthorized !== false ? "verified" : "unverified"} ${w.opts.checkServerIdentity ? "?" : ""}` : "")),
      said: t === "" ? "nothing" : t === `AUTH ${PASS}` ? "auth" : t.startsWith(`AUTH ${PASS}AUTH OK ACK`) ? "ack" : `?${t}`,
      over: s.kind === "worker" ? dead : s.out.state === "error" || (ws.at(-1)?.closed ?? false),
      code: s.kind === "worker" ? s.p.exits[0] ?? null : null,
      // a connection that was refused is closed
      left: to.ph === "over" ? ws.filter((w) => !w.closed && !w.ended && !w.near.destroyed && !w.near.writableEnded).length : 0,
      open: s.kind === "worker" ? null : to.ph === "over" ? null : s.out.state === "ok", wrong: s.kind !== "worker" && to.ph === "over" && to.said === "auth" && s.served === 0 && !s.wasOpen && s.out.state === "ok",
      served: s.served, forwarded: s.kind === "worker" ? s.up.arrived.length : null,
    };
  },
  expect(st, act, s) {
    const own = `AUTH`; const px = s.p.env.HTTPS_PROXY; const begun = !["idle"].includes(st.ph) && act.n !== "untold" && !s.never;
    if (act.n === "untold") s.never = true; if (st.ph === "open") s.wasOpen = true;
    const past = ["secure", "asked", "open"].includes(st.ph) || st.said !== "nothing" || s.past; if (past) s.past = true;
    const tls = " verified "; const dialed = !begun ? [] : px ? [`net proxy.example:3128`, ...(s.tls && s.past ? [`tls over 0 for ${HOST}${tls}`] : [])] : [s.tls ? `tls ${HOST}:${PORT}${tls}` : `net ${HOST}:${PORT}`];
    return { dialed, said: st.said, over: st.ph === "over", code: s.kind === "worker" && st.ph === "over" ? 1 : null, left: 0, open: s.kind === "worker" || st.ph === "over" ? null : st.ph === "open", wrong: false, served: st.served, forwarded: s.kind === "worker" ? st.served : null };
  },
  async teardown(s) { s.client?.destroy(); for (const w of s.wires.made) { w.near.destroy(); w.far.destroy(); } s.up.close(); await settle({ rounds: 4 }); s.clock.uninstall(); console.error = s.error; },
});

const opening = (inst) => ({
  observeInit: false, async setup(init) {
    const s = { net: new Net(), forks: [], errors: 0, clock: new FakeClock().install(), urls: [], count: init.count, cpus: 3 };
    const fork = () => { const w = Object.assign(new EventEmitter(), { sent: [], killed: 0, send(m) { w.sent.push(m); return true; }, kill() { w.killed++; }, destroy() { w.killed++; } }); w.process = w; s.forks.push(w); return w; };
    const cluster = { setupPrimary() {}, setupMaster() {}, fork, isPrimary: true };
    const { Tunnel } = inst({ ...s.net.doubles(), "typed-emitter": { __esModule: true, default: EventEmitter }, cluster: { __esModule: true, default: cluster, ...cluster }, os: { cpus: () => Array(s.cpus).fill({}), hostname: () => "h", homedir: () => "/nowhere", tmpdir: () => "/tmp" } }, { process: proc({}) });
    s.t = new Tunnel({ logger, apiToken: "tok", port: 3000, localHost: "app.local", localHttps: false, allowInvalidCert: false, proxyAllUrls: true, rewriteHostnameToAppUrl: false, enableDnsCache: false, ...(init.count ? { http2Connections: init.count } : {}) });
    s.t.on("error", () => { s.errors++; }); s.t.on("url", (u) => s.urls.push(u));
    s.told = []; s.t.open((e) => s.told.push(e)); await settle({ rounds: 3 }); return s;
  },
  async step(s, a, to) {
    if (a.n === "answer") {
      const [c] = s.net.open(); if (!c) return "nobody asks for a tunnel";
      if (a.k === "ok") c.answer(200, { id: "abc", multiplexing_port: PORT, url: `https://abc.${HOST}`, max_conn_count: 2, tunnel_passphrase: PASS, basic_auth_user: "u", basic_auth_password: "pw" });
      else if (/^\d+$/.test(a.k)) c.answer(+a.k, { error: "no" }); else if (a.k.endsWith("text")) c.answer(parseInt(a.k), "<html>denied</html>"); else if (a.k === "badgateway") c.answer(502, "<html>bad gateway</html>"); else c.fail(a.k === "refused" ? "ECONNREFUSED" : "ECONNRESET");
    } else if (a.n === "tick") { const n = s.net.calls.length; await s.clock.advance(999); if (s.net.calls.length > n) return "asked again too soon"; await s.clock.advance(2); }
    else if (a.n === "idle") await s.clock.advance(60_000);
    else if (a.n === "close") s.t.close();
    else if (a.n === "exit") s.forks[0].emit("exit", a.k === "crash" ? 1 : 0, null);
    await settle({ rounds: 5 });
  },
  observe(s) {
    return { asks: s.net.calls.map((c) => `${c.method} ${c.url.split("?")[0]} ${c.headers.authorization}`), told: s.told.map((e) => (e ? (/uthenticat/.test(e.message) ? "denied" : "error") : "open")), errors: s.errors,
      urls: s.urls.map((u) => JSON.stringify(u)), workers: s.forks.map((w) => { const o = w.sent[0]?.options ?? {}; return `${w.sent.length} ${o.remoteHost}:${o.multiplexingRemotePort} ${o.useTls} ${o.tunnelPassphrase} -> ${o.localHost}:${o.localPort} ${o.localHttps} ${o.proxyAllUrls} ${o.allowInvalidCert} ${o.rewriteHostnameToAppUrl} ${o.enableDnsCache} ${w.killed > 0}`; }) };
  },
  expect(st, act, s) {
    return { asks: Array(st.asks).fill("GET https://tunnels.meticulous.ai/ tok"), told: st.told === "nothing" ? [] : [{ denied: "denied", failed: "error", closed: "error", open: "open" }[st.told]], errors: st.errors,
      urls: st.ph === "open" ? [JSON.stringify({ url: `https://abc.${HOST}`, basicAuthUser: "u", basicAuthPassword: "pw" })] : [],
      workers: st.workers === "none" ? [] : Array(st.count || s.cpus).fill(`1 ${HOST}:${PORT} true ${PASS} -> app.local:3000 false true false false false ${st.workers === "killed"}`) };
  },
  async teardown(s) { s.t.close(); for (const c of s.net.open()) c.answer(401, {}); await settle({ rounds: 3 }); s.clock.uninstall(); },
});
export default {
  property: "T02",
  assumptions: ["sockets, TLS and worker processes are doubles; what a TLS handshake verifies is not explored, only that verification is asked for", "the credentials are accepted by exactly one message, as the server sends it: an acceptance split over several reads counts as another answer"],
  models: [{
    name: "handshake", spec: "TunnelHandshake", driver: async () => handshake(await bundle("tunnel-client/src/utils/open-socket.ts"), await bundle("tunnel-client/src/lib/tunnel-worker.entrypoint.ts")),
    runs: ({ tier }) => [{ name: "connections", cfg: { constants: { Kinds: set("socket", "acking", "worker"), Routes: set("tls", "plain", "ptls", "pplain"), Proxies: set(...Object.keys(PROXY)), Answers: set(...Object.keys(ANSWER)), MaxMore: tier === "thorough" ? 4 : 2 }, invariants: ["OnlyAccepted", "NoSecretInClear"], properties: ["Final"] }, maxPaths: 6000, walks: tier === "thorough" ? 3000 : 200 }],
  }, {
    name: "open", spec: "TunnelOpen", driver: async () => opening(await bundle("tunnel-client/src/lib/tunnel.ts")),
    runs: ({ tier }) => [{ name: "opening", cfg: { constants: { Counts: "{0, 1, 5}", Answers: set("ok", "401", "403", "401text", "403text", "500", "404", "badgateway", "refused", "reset"), MaxAsks: tier === "thorough" ? 6 : 4, MaxExits: 2 }, properties: ["NoneAfterClose", "DeniedIsFinal", "Kept"] }, maxPaths: 6000, walks: tier === "thorough" ? 3000 : 300 }],
  }],
};
