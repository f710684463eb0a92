import { loadShim, RecorderWorld, RECORD, handBody } from "../harness/edge-recorder.mjs";
import { track } from "../lib/util.mjs";

const ACCEPT = { html: "text/html", mixed: "application/xhtml+xml,text/html;q=0.9", browser: "text/html,application/xhtml+xml,application/xml;q=0.9,*/*;q=0.8", any: "*/*", json: "application/json", empty: "" };
const INBOUND = { some: "2026-07-01T11:59:00.000Z_from-the-page-0000000", other: "plain-id", empty: "" };
const responses = {
  text: () => new Response("<html>page</html>", { status: 200, headers: { "content-type": "text/html", "x-app": "a", "set-cookie": "k=v" } }),
  timings: () => new Response("t", { headers: { "server-timing": "db;dur=53, app;dur=47.2", "x-app": "a" } }),
  stream: (s) => { s.body = handBody(); return new Response(s.body.stream, { status: 206, headers: { "x-app": "a" } }); },
  fixed: () => Response.redirect("https://app.example/next", 302),
  fixedError: () => Response.redirect("https://app.example/next", 308),
  empty204: () => new Response(null, { status: 204, statusText: "Nothing", headers: { "x-app": "a" } }),
  error500: () => new Response("broken", { status: 500, headers: { "x-app": "a" } }),
  socket: () => { const r = new Response(null, { status: 200, headers: { "x-app": "a" } }); Object.defineProperty(r, "webSocket", { value: {} }); return r; },
  socketFixed: () => { const r = Response.redirect("https://app.example/ws", 307); Object.defineProperty(r, "webSocket", { value: {} }); return r; },
  constant: (s) => (s.constant ??= new Response(null, { status: 404, headers: { "server-timing": "own;dur=1", "x-app": "a" } })),
  throws: (s) => { throw (s.err = new Error("app failed")); },
};
const WANT = { text: [200, "<html>page</html>"], timings: [200, "t"], stream: [206, "one two"], fixed: [302, ""], fixedError: [308, ""], empty204: [204, ""], error500: [500, "broken"], socket: [200, ""], socketFixed: [307, ""], constant: [404, ""] };
const OWN = { timings: ["db;dur=53", "app;dur=47.2"], constant: ["own;dur=1"] };

const driver = (inst) => ({
  async setup(init) {
    const { cfg } = init; const w = new RecorderWorld(inst); const s = { w, cfg, obs: [], ids: new Set() };
    w.handlers.push((c) => { if (c.url.endsWith("/v1/events")) { c.answer(new Response(null, { status: 204 })); return true; } },
      (c) => { if (new URL(c.url).pathname === "/v1/replay/session") { c.answer(Response.json({ found: true, clockAnchorMs: 1_785_230_474_662 })); return true; } },
      (c) => { if (new URL(c.url).pathname === "/v1/replay/outbound-fetch") { s.lookSession = JSON.parse(c.body).frontendSessionId; c.answer(Response.json({ outcome: "mock", statusCode: 200, body: "m", headers: {} })); return true; } },
      (c) => { if (c.url.startsWith("https://api.example")) { c.answer(new Response("real")); return true; } });
    const env = {};
    if (cfg.mode === "url" || cfg.mode === "pages") env.METICULOUS_SIDECAR_URL = RECORD;
    if (cfg.mode === "binding") env.METICULOUS_SIDECAR = w.binding("sidecar");
    if (cfg.env !== "absent") env.METICULOUS_BACKEND_PROVISIONAL_SESSION_IDS = cfg.env === "boolFalse" ? false : cfg.env;
    const options = cfg.option === "absent" ? undefined : { mintProvisionalSessionIds: cfg.option === "true" };
    const app = async () => {
      const told = [w.mod.getMeticulousSessionId() ?? null];
      await (await fetch("https://api.example/inner")).text();
      told.push(w.mod.getMeticulousSessionId() ?? null);
      s.told = told[0] === told[1] ? told[0] : told;
      return responses[cfg.response](s);
    };
    const wrapped = cfg.mode === "pages" ? w.mod.withMeticulousPagesFunction(() => app(), options) : w.mod.withMeticulous({ fetch: app }, options).fetch;
    s.call = (req) => (cfg.mode === "pages" ? wrapped({ request: req, env, waitUntil: (p) => w.ctx.waitUntil(p) }) : wrapped(req, env, w.ctx));
    return s;
  },
  async step(s) {
    const { w, cfg } = s;
    const headers = {};
    if (cfg.dest !== "absent") headers["sec-fetch-dest"] = cfg.dest === "blank" ? "" : cfg.dest;
    if (cfg.accept !== "absent") headers.accept = ACCEPT[cfg.accept];
    if (cfg.inbound !== "absent") headers["x-meticulous-session-id"] = INBOUND[cfg.inbound];
    if (cfg.mode === "replay") Object.assign(headers, { "x-meticulous-backend-replay-sidecar-url": "http://127.0.0.1:9670", "x-meticulous-replay-id": "r1" });
    const from = w.reported().length;
    const out = track(s.call(new Request("https://app.example/page", { method: cfg.method, headers })));
    await w.settle(); await w.settle();
    let o;
    if (cfg.response === "throws") { if (out.state !== "error" || out.error !== s.err) return `expected the app's error: ${out.state}`; o = { threw: true, timing: [] }; }
    else {
      if (out.state !== "ok") return `the request ended ${out.state} ${out.error}`;
      const r = out.value;
      const timing = (r.headers.get("server-timing") ?? "").split(",").map((x) => x.trim()).filter(Boolean);
      o = { status: r.status, words: r.statusText, app: r.headers.get("x-app"), cookie: r.headers.get("set-cookie"), location: r.headers.get("location"), type: r.headers.get("content-type"), timing, text: undefined };
      if (cfg.response === "stream") { s.body.push("one "); s.body.push("two"); s.body.end(); }
      o.text = await r.text();
    }
    await w.settle(); await w.settle();
    const events = w.reported().slice(from);
    s.obs.push({ o, told: s.told, events: events.map((e) => ({ kind: e.kind, id: e.frontendSessionId ?? null, origin: e.sessionIdOrigin ?? null, timing: e.responseHeaders?.["server-timing"] })), look: s.lookSession ?? null, at: w.clock.now });
    await w.clock.advance(1000);
  },
  observe(s, m) {
    const cfg = s.cfg;
    return s.obs.map((x, k) => {
      const want = m.served[k];
      // what the app was told is the id; a minted one has the documented form and is never reused
      const id = x.told;
      const named = (v) => (v === null ? "none" : v === INBOUND[cfg.inbound] && cfg.inbound !== "absent" ? cfg.inbound
        : typeof v === "string" && v === `${new Date(x.at).toISOString()}_${v.slice(25)}` && /^[A-Za-z0-9_-]{21}$/.test(v.slice(25)) && v === id ? "minted" : `unexpected id ${v}`);
      if (want.origin) { if (s.obs.some((y, j) => j !== k && y.told === id)) return "an id was minted twice"; }
      const mine = x.o.timing.filter((t) => /^metsession/i.test(t));
      return { told: named(id), recorded: x.events.length === 0 ? "nothing" : [...new Set(x.events.map((e) => named(e.id)))].join("+"), kinds: x.events.map((e) => e.kind).sort(),
        origin: x.events.filter((e) => e.kind === "inbound").map((e) => e.origin), published: mine.length === 1 && mine[0] === `metsession;desc="${id}"` ? true : mine.length ? `published ${mine}` : false,
        rest: x.o.timing.filter((t) => !/^metsession/i.test(t)), out: x.o.threw ? "threw" : [x.o.status, x.o.words, x.o.app, x.o.cookie, x.o.location, x.o.type, x.o.text], look: x.look };
    });
  },
  expect(m) {
    const c = m.cfg;
    return m.served.map((w) => ({ told: w.told, recorded: w.recorded, kinds: w.recorded === "nothing" ? [] : ["inbound", "outbound"], origin: w.recorded === "nothing" ? [] : [w.origin ? "backend" : null], published: w.published, rest: OWN[c.response] ?? [],
      out: c.response === "throws" ? "threw" : [WANT[c.response][0], c.response === "empty204" ? "Nothing" : "", c.response.startsWith("fixed") || c.response === "socketFixed" ? null : "a", c.response === "text" ? "k=v" : null,
        c.response.startsWith("fixed") ? "https://app.example/next" : c.response === "socketFixed" ? "https://app.example/ws" : null, c.response === "text" ? "text/html" : ["timings", "error500"].includes(c.response) ? "text/plain;charset=UTF-8" : null, WANT[c.response][1]],
      look: c.mode === "replay" ? INBOUND[c.inbound] : null }));
  },
  async teardown(s) { s.w.close(); },
});

const set = (...a) => `{${a.map((x) => `"${x}"`).join(", ")}}`;
const C = { Methods: set("GET"), Dests: set("absent", "document"), Accepts: set("html"), Inbounds: set("absent"), Options: set("absent"), Envs: set("absent"), Modes: set("url"), Responses: set("text"), MaxRequests: 1 };
const INV = { invariants: ["OnlyNavigations", "PublishedIsRecorded", "InboundWins"] };
export default {
  property: "E06",
  assumptions: ["the app's response headers may be appended to in place (it is a response being returned)"],
  models: [{
    name: "session id", spec: "EdgeSessionId", driver: async () => driver(await loadShim()),
    runs: () => [
      { name: "requests", cfg: { constants: { ...C, Methods: set("GET", "HEAD", "POST", "PUT", "OPTIONS", "DELETE", "get", "PATCH").replace('"get", ', ""), Dests: set("absent", "document", "empty", "iframe", "frame", "script", "blank", "Document", "embed"), Accepts: set("absent", ...Object.keys(ACCEPT)), Inbounds: set("absent", "some", "empty") }, ...INV } },
      { name: "configurations", cfg: { constants: { ...C, Dests: set("document", "empty"), Inbounds: set("absent", "some", "other"), Options: set("absent", "true", "false"), Envs: set("absent", "false", "true", "0", "FALSE", "boolFalse"), Modes: set("url", "binding", "pages", "off", "replay") }, ...INV } },
      { name: "responses", cfg: { constants: { ...C, Dests: set("document", "empty"), Methods: set("GET", "HEAD"), Inbounds: set("absent", "some"), Modes: set("url", "pages", "off", "replay"), Responses: set(...Object.keys(responses)), MaxRequests: 2 }, ...INV } },
    ],
  }],
};
