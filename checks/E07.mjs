import { loadShim, RecorderWorld, RECORD } from "../harness/edge-recorder.mjs";
import { deferred, track } from "../lib/util.mjs";

const CAP = 262_144;
const open = (inst, { replay = false } = {}) => {
  const w = new RecorderWorld(inst); const s = { w };
  w.handlers.push((c) => { if (c.url.endsWith("/v1/events")) { c.answer(new Response(null, { status: 204 })); return true; } },
    (c) => { if (new URL(c.url).pathname === "/v1/replay/session") { c.answer(Response.json({ found: true })); return true; } },
    (c) => { if (new URL(c.url).pathname === "/v1/replay/outbound-fetch") { s.lookup = JSON.parse(c.body); c.answer(Response.json({ outcome: "mock", statusCode: 200, body: "m", headers: {} })); return true; } });
  s.env = { METICULOUS_SIDECAR_URL: RECORD, SERVICE: w.binding("service"), KV: new (class Kv {
    get() { return s.kv.promise; } getWithMetadata() { return s.kv.promise; } put(k, v, o) { s.kvPut = [k, v, o]; return s.kv.promise; } delete() { return s.kv.promise; } list() { return s.kv.promise; } })() };
  s.kv = deferred();
  s.ready = deferred(); s.end = deferred();
  const h = w.mod.withMeticulous({ fetch: async () => { s.ready.resolve(); const go = await s.cmd.promise; const p = go(); p.catch(() => {}); s.app = track(p); return s.end.promise; } });
  s.cmd = deferred();
  s.out = track(h.fetch(new Request("https://app.example/", { headers: replay ? { "x-meticulous-backend-replay-sidecar-url": "http://127.0.0.1:9670", "x-meticulous-session-id": "s", "x-meticulous-replay-id": "r" } : {} }), s.env, w.ctx));
  return s;
};
const events = (w, kind) => w.reported().filter((e) => e.kind === kind);

// ------------------------------------------------------------- documents
const LEAF = { text: "a text", number: 42.5, zero: 0, null: null, true: true, false: false, secretText: "password", json: '{"password":"inner"}', REDACTED: "REDACTED", empty: "", unicode: "héß ✓ \u2028 \"q\" \\ \n" };
const RAW = { "raw:form": "password=secret&a=1", "raw:broken": '{"password":"x"', "raw:empty": "", "raw:text": "hello", "raw:secretText": '"password"', "raw:null": "null", "raw:spaced": ' { "a" : [ 1 , 2 ] } ' };
const toText = (d) => (d.t === "leaf" ? JSON.stringify(LEAF[d.v]) : d.t === "arr" ? `[${d.xs.map(toText).join(",")}]` : `{${d.ks.map((k, i) => `${JSON.stringify(k)}:${toText(d.xs[i])}`).join(",")}}`);
// every key of a parsed document, also "__proto__", independent of their order
const entries = (v) => (Array.isArray(v) ? v.map(entries) : v && typeof v === "object" ? { obj: Object.getOwnPropertyNames(v).sort().map((k) => [k, entries(Object.getOwnPropertyDescriptor(v, k).value)]) } : v);
const docDriver = (inst) => ({
  observeInit: false, async setup(init) { const s = open(inst, { replay: init.surface === "lookup" }); s.surface = init.surface; const d = init.doc; s.text = d.t === "leaf" && d.v in RAW ? RAW[d.v] : toText(d); await s.w.settle(); return s; },
  async step(s) {
    const { w, surface, text } = s;
    const api = "https://api.example/x";
    const post = (f) => async () => (await (await f(api, { method: "POST", body: text })).text());
    const go = { fetch: post((a, b) => fetch(a, b)), lookup: post((a, b) => fetch(a, b)), service: post((a, b) => s.env.SERVICE.fetch(a, b)), bytes: post((a, b) => fetch(a, { ...b, body: new TextEncoder().encode(b.body) })),
      response: async () => (await fetch(api)).text(), serviceResponse: async () => (await s.env.SERVICE.fetch(api)).text(),
      kvPut: () => s.env.KV.put("key", text, { expirationTtl: 60 }), kvRead: () => s.env.KV.get("key", "json") }[surface];
    s.cmd.resolve(go); await w.settle();
    const net = w.calls.find((c) => c.url === api);
    if (net) net.answer(new Response(surface === "response" || surface === "serviceResponse" ? text : "ok"));
    if (surface === "kvRead") { let v; try { v = JSON.parse(text); } catch { v = text; } s.kv.resolve(v); s.kvValue = v; } else s.kv.resolve();
    await w.settle(); s.end.resolve(new Response("done")); await w.settle(); await w.settle();
    if (s.app.state !== "ok") return `the app's call ended ${s.app.state} ${s.app.error}`;
    // the app and its peer see the unmodified body
    if (net && net.method === "POST" && (net.body ?? "") !== text) return `the service was sent ${net.body}`;
    if ((surface === "response" || surface === "serviceResponse") && s.app.value !== text) return "the app was given a changed body";
    if (surface === "kvRead" && s.app.value !== s.kvValue) return "the app was given a changed value";
    if (surface === "kvPut" && JSON.stringify(s.kvPut) !== JSON.stringify(["key", text, { expirationTtl: 60 }])) return "a changed value was stored";
  },
  observe(s) {
    const { w, surface } = s;
    const e = surface.startsWith("kv") ? events(w, "kv")[0] : surface.startsWith("service") ? events(w, "binding")[0] : events(w, "outbound")[0];
    const b = surface === "lookup" ? s.lookup?.requestBody : surface === "kvPut" ? e?.value : surface === "kvRead" ? e?.result : surface === "response" || surface === "serviceResponse" ? e?.responseBody : e?.requestBody;
    if (!b) return null;
    if (b.truncated !== false) return "marked as truncated";
    let text = b.body;
    if (surface === "kvPut") { text = JSON.parse(text); if (e.args.body !== '["key",null,{"expirationTtl":60}]') return `arguments ${e.args.body}`; }
    s.raw = text;
    try { return { doc: entries(JSON.parse(text)) }; } catch { return { text }; }
  },
  expect(m, _a, s) {
    const d = m.out;
    if (d.t === "leaf" && d.v in RAW) {
      const t = RAW[d.v];
      if (t === "" && !["response", "serviceResponse", "kvPut", "kvRead"].includes(m.surface)) return s.raw === undefined ? null : { text: "" };
      if (m.surface === "kvRead") { let v; try { v = JSON.parse(t); } catch { v = t; } return { doc: entries(v) }; }
      try { return { doc: entries(JSON.parse(t)) }; } catch { return { text: t }; }
    }
    return { doc: entries(JSON.parse(toText(d))) };
  },
  async teardown(s) { s.w.close(); },
});

// --------------------------------------------------------------- streams
const PATTERN = { ascii: "abcdefghij", two: "éü", three: "✓a", four: "😀b", binary: null, broken: null };
const make = (content) => { if (content === "binary") { const b = new Uint8Array(900_000); for (let i = 0; i < b.length; i++) b[i] = (i * 7 + (i >> 8)) & 255; return b; }
  const p = new TextEncoder().encode(PATTERN[content]); const b = new Uint8Array(900_000); for (let i = 0; i < b.length; i++) b[i] = p[i % p.length]; return b; };
const streamDriver = (inst) => { const bytes = {}; return ({
  observeInit: false, async setup(init) {
    const s = open(inst); s.init = init; s.w.loose = init.via === "request"; s.bytes = bytes[init.content] ??= make(init.content); s.at = 0; s.pieces = [];
    await s.w.settle();
    let ctl; const stream = new ReadableStream({ start(c) { ctl = c; } }); s.ctl = ctl;
    const api = "https://api.example/x"; const via = init.via;
    const read = async (r) => { s.appGot = []; const rd = r.body.getReader(); for (;;) { const { done, value } = await rd.read(); if (done) return "end"; s.appGot.push(value); } };
    s.cmd.resolve(async () => {
      if (via === "response") return read(await fetch(api));
      if (via === "service") return read(await s.env.SERVICE.fetch(api));
      return (await fetch(api, { method: "POST", body: stream, duplex: "half" })).text();
    });
    await s.w.settle();
    s.net = s.w.calls.find((c) => c.url === api) ?? null;
    if (via !== "request") s.net.answer(new Response(stream, { headers: { "content-type": "text/plain" } }));
    s.end.resolve(new Response("done"));
    await s.w.settle();
    return s;
  },
  async step(s, act, to) {
    const { w } = s;
    if (act.n === "push") { const v = s.bytes.slice(s.at, s.at + act.size); s.at += act.size; s.ctl.enqueue(v); }
    else if (act.n === "end") s.ctl.close();
    else if (act.n === "fail") s.ctl.error((s.err = new Error("connection reset")));
    else { const ms = to.clock === 10 ? 10_000 - (s.clock ?? 0) : act.s * 1000; s.clock = (s.clock ?? 0) + ms; if (to.clock === 10) { await w.clock.advance(ms - 1); const early = s.event(); if (early && !s.had) return "the capture ended before ten seconds"; await w.clock.advance(1); } else await w.clock.advance(ms); }
    await w.settle();
    if (s.init.via === "request" && (act.n === "end" || act.n === "fail")) {
      // the service answers once the body is there
      const net = w.calls.find((c) => c.url === "https://api.example/x");
      if (!net) return "the call did not reach the service";
      await w.settle();
      s.sent = net.body;
      if (act.n === "fail") net.fail((s.callErr = new TypeError("body failed"))); else net.answer(new Response("thanks"));
      await w.settle();
    }
    s.had = s.event() !== undefined;
  },
  observe(s, m) {
    const { w } = s; const via = s.init.via;
    const e = s.event();
    const b = e && (via === "request" ? e.requestBody : e.responseBody);
    let app;
    if (via === "request") app = m.body === "open" ? s.app.state : m.body === "failed" ? [s.app.state, s.app.error === s.callErr] : [s.app.state, s.app.value, s.sent === new TextDecoder().decode(s.bytes.subarray(0, m.got))];
    else { const n = (s.appGot ?? []).reduce((a, x) => a + x.byteLength, 0); let same = true, at = 0; for (const x of s.appGot ?? []) { for (let i = 0; i < x.length; i += 997) if (x[i] !== s.bytes[at + i]) same = false; at += x.length; } app = [s.app.state, n, same, m.body === "failed" ? s.app.error === s.err : null]; }
    return { app, cap: e === undefined ? "reading" : b === undefined ? "failed" : { len: b.body.length, truncated: b.truncated, same: b.body === s.text(m.capLen) || b.body === s.text2(m.capLen) } };
  },
  expect(m, _a, s) {
    const via = m.via;
    const app = via === "request" ? (m.body === "open" ? "pending" : m.body === "failed" ? ["error", true] : ["ok", "thanks", true]) : [m.body === "open" ? "pending" : m.body === "ended" ? "ok" : "error", m.got, true, m.body === "failed" ? true : null];
    // an outbound request is reported when its call has ended as well
    const e = s.event(); const b = e && (via === "request" ? e.requestBody : e.responseBody);
    const reported = m.cap !== "reading" && (via !== "request" || m.body !== "open") && !(m.cap === "over" && !e);
    const t = s.text(m.capLen), t2 = s.text2(m.capLen);
    return { app, cap: !reported ? "reading" : m.cap === "failed" || (m.cap === "lost" && !b) ? "failed" : { len: b && b.body.length === t2.length ? t2.length : t.length, truncated: m.cap !== "whole", same: true } };
  },
  async teardown(s) { s.w.close(); },
}); };
const withHelpers = (d) => ({ ...d, async setup(init, env) {
  const s = await d.setup(init, env);
  s.event = () => (init.via === "service" ? events(s.w, "binding") : events(s.w, "outbound"))[0];
  // the leading part; a character cut by the end may be left out or stand as a replacement character
  s.text = (n) => new TextDecoder().decode(s.bytes.subarray(0, n));
  s.text2 = (n) => new TextDecoder().decode(s.bytes.subarray(0, n), { stream: true });
  return s;
} });

const set = (...a) => `{${a.map((x) => `"${x}"`).join(", ")}}`;
const ODD = ["tokens", "mytoken", "user", "__proto__", "constructor", "toString", "passwordHint", "secretary", "auth", "", "1", "hasOwnProperty"];
const SECRET = ["accessToken", "apiKey", "api_key", "authorization", "Authorization", "clientSecret", "client_secret", "CLIENT-SECRET", "credential", "id_token", "idToken", "password", "PassWord", "private-key", "privateKey", "refresh_token", "Refresh-Token", "secret", "token", "__token__", "-t_o-k_e_n"];
const DOC = { Keys: set("password"), Leaves: set("text"), Wraps: set("top"), Surfaces: set("fetch"), Mode: '"singles"' };
const DI = { invariants: ["NoSecretLeft", "Idempotent"] };
const STR = { Vias: set("response"), Contents: set("ascii"), Sizes: "{1}", Cap: CAP, MaxPieces: 3, MaxLen: 4 };
const SI = { invariants: ["Bounded", "Truthful", "Marked"] };
export default {
  property: "E07",
  assumptions: ["numbers are compared as JSON parsing gives them", "an empty piece right after exactly the cap may count as more content", "nesting deeper than the language's stack is out of scope"],
  models: [
    { name: "documents", spec: "EdgeRedact", driver: async () => docDriver(await loadShim()),
      runs: ({ tier }) => {
        const t = tier === "thorough"; const W = set("top", "array", "object", "arrayInObject", "objectInArray", "deep");
        return [
          { name: "keys", cfg: { constants: { ...DOC, Keys: set(...SECRET, ...ODD), Wraps: t ? W : set("top", "deep") }, ...DI } },
          { name: "places", cfg: { constants: { ...DOC, Keys: set("password", "user", "__proto__"), Leaves: set(...Object.keys(LEAF)), Wraps: W, Surfaces: t ? set("fetch", "service", "kvPut") : set("fetch") }, ...DI } },
          { name: "surfaces", cfg: { constants: { ...DOC, Keys: set("client_secret", "user", "__proto__"), Wraps: t ? W : set("top", "array", "object"), Surfaces: set("fetch", "bytes", "service", "lookup", "response", "serviceResponse", "kvPut", "kvRead") }, ...DI } },
          { name: "texts", cfg: { constants: { ...DOC, Mode: '"texts"', Surfaces: set("fetch", "bytes", "service", "lookup", "response", "serviceResponse", "kvPut", "kvRead") }, ...DI } },
          { name: "pairs", cfg: { constants: { ...DOC, Mode: '"pairs"', Keys: set("token", "a", "__proto__", "api_key"), Leaves: t ? set("text", "null", "number", "empty") : set("text", "null"), Wraps: t ? W : set("top", "array") }, ...DI } },
        ];
      } },
    { name: "streams", spec: "EdgeBody", driver: async () => withHelpers(streamDriver(await loadShim())),
      runs: ({ tier }) => {
        const t = tier === "thorough";
        return [
          { name: "pieces", cfg: { constants: { ...STR, Contents: set("ascii", "two", "three", "four", "binary"), Sizes: `{0, 1, 3, 131072, ${CAP - 2}, ${CAP - 1}, ${CAP}, ${CAP + 1}}`, MaxPieces: 2, MaxLen: 3 }, ...SI }, maxPaths: t ? undefined : 900 },
          { name: "timing", cfg: { constants: { ...STR, Vias: set("response", "service", "request"), Sizes: `{5, ${CAP}}`, MaxPieces: 3, MaxLen: 5 }, ...SI }, maxPaths: t ? undefined : 900 },
        ];
      } },
  ],
};
