import { loadShim, RecorderWorld, RECORD } from "../harness/edge-recorder.mjs";
import { track } from "../lib/util.mjs";

const TAILS = { none: "", slash: "/", path: "/x", query: "/?q=1", hash: "/#h", bareQuery: "?q" };
const USERS = { none: "", name: "user@", both: "user:pw@", emptyPw: ":@" };
const app = (s) => async () => {
  // where an outbound call goes tells how the request is handled
  try { const r = await fetch("https://upstream.example/probe"); return new Response(await r.text()); } catch (e) { return new Response(`failed: ${e}`); }
};
const probe = (c) => { if (c.url.startsWith("https://upstream.example/")) { c.answer(new Response("live")); return true; } };
const lookups = (c) => { if (new URL(c.url).pathname === "/v1/replay/outbound-fetch") { c.answer(Response.json({ outcome: "mock", statusCode: 200, body: "recorded", headers: {} })); return true; } };
const events = (c) => { if (c.url.endsWith("/v1/events")) { c.answer(new Response(null, { status: 204 })); return true; } };
const answers = {
  found: (c) => c.answer(Response.json({ found: true, clockAnchorMs: 1_785_230_474_662 })),
  notFound: (c) => c.answer(Response.json({ found: false })),
  noRoute: (c) => c.answer(new Response("{}", { status: 404 })),
  badVersion: (c) => c.answer(new Response("{}", { status: 400 })),
  error: (c) => c.answer(new Response("warming up", { status: 500 })),
  reject: (c) => c.fail(),
  notJson: (c) => c.answer(new Response("<html>", { status: 200 })),
  nullBody: (c) => c.answer(new Response("null", { status: 200 })),
  foundText: (c) => c.answer(Response.json({ found: "true" })),
};

const tableDriver = (inst) => ({
  observeInit: false, async setup(init) {
    const w = new RecorderWorld(inst); const s = { w, cfg: init.cfg };
    s.asked = [];
    w.handlers.push(probe, lookups, events, (c) => {
      if (new URL(c.url).pathname !== "/v1/replay/session") return false;
      s.asked.push(c); answers[init.cfg.reply](c); return true;
    });
    return s;
  },
  async step(s) {
    const { w, cfg } = s;
    const headers = {};
    if (cfg.scheme !== "absent") headers["x-meticulous-backend-replay-sidecar-url"] = cfg.scheme === "junk" ? cfg.host : `${cfg.scheme}://${USERS[cfg.user]}${cfg.host}${cfg.port}${TAILS[cfg.tail]}`;
    if (cfg.session === "some") headers["x-meticulous-session-id"] = "session 1/ü".replace("ü", "u");
    if (cfg.replay === "some") headers["x-meticulous-replay-id"] = "replay-1";
    const h = w.mod.withMeticulous({ fetch: app(s) });
    const out = track(h.fetch(new Request("https://app.example/", { headers }), cfg.rec === "yes" ? { METICULOUS_SIDECAR_URL: RECORD } : {}, w.ctx));
    await w.settle(); await w.settle();
    if (out.state !== "ok") return `the request ended ${out.state} ${out.error}`;
    const text = await out.value.text();
    s.out = text === "recorded" ? "replay" : text === "live" ? "ordinary" : text;
    s.events = w.reported().length;
    if (s.asked.length > 1) return "the sidecar was asked more than once";
    if (s.asked.length && new URL(s.asked[0].url).searchParams.get("sessionId") !== "session 1/u") return "asked for another session";
    const strangers = w.calls.filter((c) => !c.url.startsWith("https://upstream.example/") && !c.url.startsWith(RECORD));
    if (s.out === "ordinary" && !s.asked.length && strangers.length) return `a call went to ${strangers[0].url}`;
    if (s.out === "replay" && w.calls.some((c) => c.url.startsWith(RECORD))) return "a replay was recorded";
  },
  observe(s) { return { out: s.out, asked: s.asked.length > 0, recorded: s.events > 0 }; },
  expect(m) { return { out: m.out, asked: m.asked, recorded: m.cfg.rec === "yes" && m.out === "ordinary" }; },
  async teardown(s) { s.w.close(); },
});

const historyDriver = (inst) => ({
  observeInit: false, async setup(init) {
    const w = new RecorderWorld(inst); const s = { w, looks: [], reqs: [], fillers: 0 };
    w.handlers.push(probe, lookups, events, (c) => {
      const u = new URL(c.url);
      if (u.pathname !== "/v1/replay/session") return false;
      if (u.searchParams.get("sessionId").startsWith("filler")) { s.fillerAsked = (s.fillerAsked ?? 0) + 1; answers.found(c); } else s.looks.push(c);
      return true;
    });
    s.h = w.mod.withMeticulous({ fetch: app(s) });
    s.send = (session, sidecar = "http://127.0.0.1:9670") => track((async () => (await s.h.fetch(new Request("https://app.example/", { headers: { "x-meticulous-backend-replay-sidecar-url": sidecar, "x-meticulous-session-id": session, "x-meticulous-replay-id": `replay-${Math.floor(w.calls.length)}` } }), { METICULOUS_SIDECAR_URL: RECORD }, w.ctx)).text())());
    s.filler = async () => { const o = s.send(`filler-${s.fillers++}`); await w.settle(); if (o.value !== "recorded") throw new Error(`filler session not replayed: ${o.state} ${o.value}`); };
    for (let i = 0; i < init.mem.filter((e) => e.key === "filler").length; i++) await s.filler();
    return s;
  },
  async step(s, act) {
    const { w } = s;
    // keys that share the session but not the sidecar, or the other way round, are different
    const at = { a: ["session-a"], b: ["session-b"], aOther: ["session-a", "http://localhost:9671"] };
    if (act.n === "request") { s.reqs.push(s.send(...at[act.key])); }
    else if (act.n === "answer") { const c = s.looks[act.l - 1]; if (!c) return `lookup ${act.l} was not made`; if (!c.open) return `lookup ${act.l} is no longer open`; answers[act.a](c); }
    else if (act.n === "timeout") { await w.settle(); await w.clock.advance(9_999); if (s.looks.some((c) => c.aborted && !c.seen)) return "gave up before 10 s"; await w.clock.advance(1); for (const c of s.looks) c.seen = true; }
    else if (act.n === "filler") for (let i = 0; i < act.k; i++) await s.filler();
    await w.settle(); await w.settle();
    if ((s.fillerAsked ?? 0) !== s.fillers) return "a filler session was not looked up exactly once";
  },
  observe(s) {
    return { looks: s.looks.map((c) => ({ session: new URL(c.url).searchParams.get("sessionId"), origin: new URL(c.url).origin, open: c.open })),
      reqs: s.reqs.map((o) => (o.state === "ok" ? (o.value === "recorded" ? "replay" : o.value === "live" ? "ordinary" : o.value) : o.state === "pending" ? "waiting" : `error ${o.error}`)) };
  },
  expect(m) {
    return { looks: m.looks.map((l) => ({ session: l.key === "b" ? "session-b" : "session-a", origin: l.key === "aOther" ? "http://localhost:9671" : "http://127.0.0.1:9670", open: l.st === "asking" })), reqs: m.reqs.map((r) => r.st) };
  },
  async teardown(s) { s.w.close(); },
});

const set = (...a) => `{${a.map((x) => `"${x}"`).join(", ")}}`;
const TABLE = { Mode: '"table"', Schemes: set("http", "HTTP", "https", "ws", "ftp", "junk", "absent"), Hosts: set("localhost", "LocalHost", "127.0.0.1", "127.9.9.9", "10.1.2.3", "172.16.0.1", "172.31.255.255", "192.168.1.1", "[::1]", "host.docker.internal", "host.containers.internal", "0177.0.0.1", "2130706433",
  "172.15.0.1", "172.32.0.1", "192.167.1.1", "192.169.1.1", "169.254.169.254", "11.0.0.1", "9.255.255.255", "126.0.0.1", "128.0.0.1", "0.0.0.0", "8.8.8.8", "[::2]", "[fe80::1]", "[::ffff:8.8.8.8]", "example.com", "localhost.evil.com", "127.0.0.1.evil.com", "10.evil.com", "evil-localhost", "x.localhost.com", "host.docker.internal.evil.com", "a.b.c.d"),
  Ports: set("", ":9670"), Tails: set("none", "slash", "path", "query", "hash"), Users: set("none", "name", "both"), Sessions: set("some", "none"), ReplayIds: set("some", "none"), Replies: set("found", "notFound", "noRoute", "badVersion", "error", "reject", "notJson", "nullBody", "foundText"), Recs: set("yes", "no"),
  Keys: "{}", Answers: "{}", MaxRequests: 0, Capacity: 50, Fill: 0, Fillers: "{}", MaxLen: 1 };
const ONE = { ...TABLE, Ports: set(":9670"), Sessions: set("some"), ReplayIds: set("some"), Replies: set("found"), Recs: set("yes") };
const TWO = { ...TABLE, Schemes: set("http", "https"), Hosts: set("127.0.0.1", "8.8.8.8"), Tails: set("none"), Users: set("none") };
const HIST = { ...TABLE, Mode: '"history"', Schemes: "{}", Keys: set("a", "b", "aOther"), Answers: set("found", "notFound", "error"), MaxRequests: 4, MaxLen: 6 };
const TI = { invariants: ["OnlyWithProof"] };
const HI = { invariants: ["OnlyWithProof", "Bounded", "OnePerKey", "OnlySettledRemembered", "Waiting"] };
export default {
  property: "E03",
  assumptions: ["an address is taken in the form that URL parsing gives it: other spellings of a loopback address are that address"],
  models: [
    { name: "table", spec: "EdgeReplayMode", driver: async () => tableDriver(await loadShim()),
      runs: ({ tier }) => [
        { name: "addresses", cfg: { constants: ONE, ...TI }, maxPaths: tier === "thorough" ? undefined : 4000 },
        { name: "requests", cfg: { constants: TWO, ...TI } },
      ] },
    { name: "history", spec: "EdgeReplayMode", driver: async () => historyDriver(await loadShim()),
      runs: ({ tier }) => {
        const t = tier === "thorough";
        return [
          { name: "sharing", cfg: { constants: { ...HIST, MaxLen: t ? 7 : 6 }, ...HI }, maxPaths: t ? 40000 : 1500, walks: 50 },
          { name: "answers", cfg: { constants: { ...HIST, Keys: set("a"), Answers: set("found", "notFound", "noRoute", "error", "reject", "notJson"), MaxRequests: 3, MaxLen: 5 }, ...HI }, maxPaths: t ? undefined : 1200 },
          { name: "eviction", cfg: { constants: { ...HIST, Keys: set("a"), Answers: set("found", "reject"), Fillers: "{50}", MaxRequests: 4, MaxLen: t ? 8 : 6 }, ...HI }, deepen: t ? 40000 : 800, maxPaths: t ? undefined : 250 },
          { name: "eviction boundary", cfg: { constants: { ...HIST, Keys: set("a", "b"), Answers: set("found", "notFound"), Fillers: "{48, 49}", MaxLen: t ? 7 : 5 }, ...HI }, maxPaths: t ? 8000 : 200 },
        ];
      } },
  ],
};
