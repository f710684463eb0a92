import { loadShim, RecorderWorld, RECORD } from "../harness/edge-recorder.mjs";
import { deferred, track } from "../lib/util.mjs";

const SIDE = { R1: "http://127.0.0.1:967", R2: "http://localhost:976" };
const ID = { R1: ["session-one", "replay-one", 120], R2: ["session-two", "replay-two", 0] };
// shape -> the arguments given to fetch, and what they amount to
const shapes = {
  get: (h) => ({ args: ["https://api.example/things?key=k1", { headers: h }], method: "GET", url: "https://api.example/things?key=k1" }),
  bare: () => ({ args: ["https://api.example/bare"], method: "GET", url: "https://api.example/bare" }),
  urlObj: (h) => ({ args: [new URL("https://api.example/u#frag"), { headers: h, method: "DELETE" }], method: "DELETE", url: "https://api.example/u#frag" }),
  post: (h) => ({ args: ["https://api.example/save", { method: "POST", body: "plain text ✓", headers: h }], method: "POST", url: "https://api.example/save", body: "plain text ✓" }),
  secret: (h) => ({ args: ["https://api.example/token", { method: "PUT", body: '{"client_secret":"s3cr3t","n":1}', headers: { "content-type": "application/json", ...h } }], method: "PUT", url: "https://api.example/token", body: '{"client_secret":"s3cr3t","n":1}', lookBody: '{"client_secret":"REDACTED","n":1}' }),
  del: (h) => ({ args: ["https://api.example/del", { method: "DELETE", body: "which", headers: h }], method: "DELETE", url: "https://api.example/del", body: "which" }),
  reqObj: (h) => ({ args: [new Request("https://api.example/r", { method: "POST", body: "in request", headers: h })], method: "POST", url: "https://api.example/r", body: "in request" }),
  reqInit: (h) => ({ args: [new Request("https://api.example/ri", { method: "POST", body: "old", headers: { "x-old": "1" } }), { method: "PATCH", body: "new", headers: h }], method: "PATCH", url: "https://api.example/ri", body: "new" }),
  big: (h) => ({ args: ["https://api.example/big", { method: "POST", body: "x".repeat(300_000), headers: h }], method: "POST", url: "https://api.example/big", body: "x".repeat(300_000), lookBody: "x".repeat(262_144), truncated: true }),
  stream: (h) => ({ args: ["https://api.example/stream", { method: "POST", duplex: "half", body: new Blob(["streamed"]).stream(), headers: h }], method: "POST", url: "https://api.example/stream", body: "streamed" }),
  toSidecar: (h, ctx) => ({ args: [`${SIDE[ctx] ?? RECORD}/custom`, { headers: h }], method: "GET", url: `${SIDE[ctx] ?? RECORD}/custom` }),
  otherSidecar: (h, ctx) => ({ args: [`${SIDE[ctx === "R1" ? "R2" : "R1"]}/custom`, { headers: h }], method: "GET", url: `${SIDE[ctx === "R1" ? "R2" : "R1"]}/custom` }),
  nearSidecar: (h, ctx) => ({ args: [`${SIDE[ctx] ?? SIDE.R1}0/custom`, { headers: h }], method: "GET", url: `${SIDE[ctx] ?? SIDE.R1}0/custom` }),
};
const mock = (o) => (c) => c.answer(Response.json({ outcome: "mock", statusCode: 200, body: "recorded ✓", headers: { "content-type": "text/x-rec", "x-kept": "yes" }, ...o }));
const answers = {
  mock200: mock({}), mock404: mock({ statusCode: 404 }), mock500: mock({ statusCode: 500 }), mock204: mock({ statusCode: 204 }), mock304: mock({ statusCode: 304 }), mock205: mock({ statusCode: 205 }), mock201: mock({ statusCode: 201 }), mock302: mock({ statusCode: 302 }), mock599: mock({ statusCode: 599 }),
  mockFraming: mock({ headers: { "content-type": "text/x-rec", "x-kept": "yes", "Content-Encoding": "gzip", "content-length": "99999", "transfer-encoding": "chunked" } }),
  mockBadHeader: mock({ headers: { "content-type": "text/x-rec", "bad name": "v", "x-bad": "a\nb", "x-kept": "yes" } }),
  mockEmpty: mock({ body: "" }), mockNoBody: mock({ body: undefined }),
  mock99: mock({ statusCode: 99 }), mock600: mock({ statusCode: 600 }), mockText: mock({ statusCode: "abc" }), mockNoHeaders: mock({ headers: undefined }), mockNullHeaders: mock({ headers: null }),
  noMock: (c) => c.answer(Response.json({ outcome: "no-mock" })), unknown: (c) => c.answer(Response.json({ outcome: "shrug" })), passthrough: (c) => c.answer(Response.json({ outcome: "passthrough" })), noOutcome: (c) => c.answer(Response.json({})),
  http500: (c) => c.answer(Response.json({ outcome: "mock", statusCode: 200, body: "x", headers: {} }, { status: 500 })), http404: (c) => c.answer(new Response("no route", { status: 404 })), http400: (c) => c.answer(Response.json({ outcome: "passthrough" }, { status: 400 })),
  reject: (c) => c.fail(), badJson: (c) => c.answer(new Response("<html>")), nullJson: (c) => c.answer(new Response("null")), text: (c) => c.answer(new Response('"mock"')), empty: (c) => c.answer(new Response("")),
  stallBody: (c) => { let k; c.signal?.addEventListener?.("abort", () => { try { k.error(c.signal.reason); } catch {} }); c.answer(new Response(new ReadableStream({ start(x) { k = x; x.enqueue(new TextEncoder().encode('{"outcome":"mock",')); } }))); },
};
const SERVED = {
  mock200: [200, "text/x-rec", "recorded ✓"], mock404: [404, "text/x-rec", "recorded ✓"], mock500: [500, "text/x-rec", "recorded ✓"], mock204: [204, "text/x-rec", ""], mock304: [304, "text/x-rec", ""], mock205: [205, "text/x-rec", ""], mock201: [201, "text/x-rec", "recorded ✓"], mock302: [302, "text/x-rec", "recorded ✓"], mock599: [599, "text/x-rec", "recorded ✓"],
  mockFraming: [200, "text/x-rec", "recorded ✓"], mockBadHeader: [200, "text/x-rec", "recorded ✓"], mockEmpty: [200, "text/x-rec", ""], mockNoBody: [200, "text/x-rec", ""],
};

const driver = (inst) => ({
  async setup() {
    const w = new RecorderWorld(inst); const s = { w, calls: [], ctx: {} };
    w.handlers.push((c) => { if (c.url.endsWith("/v1/events")) { c.answer(new Response(null, { status: 204 })); return true; } },
      (c) => { if (new URL(c.url).pathname === "/v1/replay/session") { c.answer(Response.json({ found: true, clockAnchorMs: 1_785_230_474_662 })); return true; } });
    const h = w.mod.withMeticulous({ fetch: (req) => {
      const name = req.headers.get("x-ctx"); const ctx = s.ctx[name] = { cmds: [], wake: deferred(), end: deferred() };
      (async () => { for (;;) { while (!ctx.cmds.length) { await ctx.wake.promise; ctx.wake = deferred(); } ctx.cmds.shift()(); } })();
      return ctx.end.promise;
    } });
    const start = async (name, headers, env) => { s[`out${name}`] = track(h.fetch(new Request("https://app.example/", { headers: { "x-ctx": name, ...headers } }), env, w.ctx)); await w.settle(); };
    const rep = (n) => ({ "x-meticulous-backend-replay-sidecar-url": SIDE[n], "x-meticulous-session-id": ID[n][0], "x-meticulous-replay-id": ID[n][1], ...(ID[n][2] === undefined ? {} : { "x-meticulous-virtual-time": String(ID[n][2]) }) });
    await start("R1", rep("R1"), {}); await start("rec", {}, { METICULOUS_SIDECAR_URL: RECORD }); await start("R2", rep("R2"), { METICULOUS_SIDECAR_URL: RECORD }); await start("off", {}, {});
    for (const n of ["R1", "R2", "rec", "off"]) if (!s.ctx[n]) throw new Error(`the app was not invoked for ${n}`);
    return s;
  },
  async step(s, act) {
    const { w } = s;
    if (act.n === "call") {
      const k = s.calls.length;
      const made = shapes[act.shape]({ "x-call": String(k), ...(act.mark === "absent" ? {} : { "meticulous-passthrough": act.mark }) }, act.ctx);
      const rec = { ...made, from: w.calls.length }; s.calls.push(rec);
      const go = () => { rec.out = track((async () => { const r = await fetch(...made.args); return { status: r.status, type: r.headers.get("content-type"), kept: r.headers.get("x-kept"), enc: r.headers.get("content-encoding"), len: r.headers.get("content-length"), text: await r.text(), real: r.headers.get("x-real") }; })()); };
      if (act.ctx === "plain") go(); else { s.ctx[act.ctx].cmds.push(go); s.ctx[act.ctx].wake.resolve(); }
      await w.settle(); await w.settle();
      const mine = w.calls.slice(rec.from).filter((c) => !c.url.endsWith("/v1/events"));
      if (mine.length !== 1) return `one fetch made ${mine.length} network calls: ${mine.map((c) => c.url)}`;
      rec.net = mine[0];
    } else if (act.n === "answer") answers[act.a](s.calls[act.i - 1].net);
    else if (act.n === "live") { const c = s.calls[act.i - 1]; if (act.ok) c.net.answer(new Response("real answer", { status: 201, headers: { "x-real": "1", "content-type": "text/real" } })); else c.net.fail((c.err = new TypeError("real network is down"))); }
    else if (act.n === "timeout") { await w.clock.advance(4_999); if (s.calls.some((c) => c.out.state === "error" && !c.seen && !c.err)) return "gave up before 5 s"; await w.clock.advance(1); }
    else if (act.n === "return") { s.ctx[act.ctx].end.resolve(new Response("done")); await w.settle(); if (s[`out${act.ctx}`].state !== "ok") return "the response was not returned"; }
    await w.settle(); await w.settle();
    for (const c of s.calls) if (c.out.state === "error") c.seen = true;
  },
  observe(s, m) {
    return s.calls.map((c, i) => {
      const url = new URL(c.net.url); const looked = url.pathname === "/v1/replay/outbound-fetch";
      let o = c.out.state === "pending" ? "pending" : c.out.state === "error" ? (c.err ? (c.out.error === c.err ? "its error" : `another error: ${c.out.error}`) : "failed") : c.out.value;
      const extra = s.w.calls.filter((x) => x !== c.net && x.url === c.url).length - s.calls.filter((x) => x !== c && x.url === c.url && x.net.url === c.url).length;
      return looked ? { lookup: url.origin, sent: JSON.parse(c.net.body), how: [c.net.method, c.net.headers["content-type"], c.net.headers["x-meticulous-sidecar-protocol"] !== undefined || Object.keys(c.net.headers).some((h) => /protocol/.test(h))], o, extra }
        : { live: c.net.url, method: c.net.method, body: c.net.body ?? null, call: c.net.headers["x-call"] ?? null, mark: c.net.headers["meticulous-passthrough"] ?? null, o, extra };
    });
  },
  expect(m, _a, s) {
    return m.calls.map((k, i) => {
      const c = s.calls[i];
      const o = k.got === "none" ? "pending" : k.got === "failed" ? "failed" : k.got === "realError" ? "its error"
        : k.got === "real" ? { status: 201, type: "text/real", kept: null, enc: null, len: null, text: "real answer", real: "1" }
          : { status: SERVED[k.got][0], type: SERVED[k.got][1], kept: "yes", enc: null, len: null, text: SERVED[k.got][2], real: null };
      const hermetic = (k.ctx === "R1" || k.ctx === "R2") && k.mark !== "true" && k.shape !== "toSidecar";
      if (!hermetic) return { live: c.url, method: c.method, body: c.body ?? null, call: k.shape === "bare" ? null : String(i), mark: k.shape === "bare" || k.mark === "absent" ? null : k.mark, o, extra: 0 };
      const [session, replay, vt] = ID[k.ctx];
      return { lookup: SIDE[k.ctx], sent: { frontendSessionId: session, replayId: replay, method: c.method, url: c.url, ...(vt === undefined ? {} : { virtualTimeMs: vt }), ...(c.body === undefined ? {} : { requestBody: { body: c.lookBody ?? c.body, truncated: c.truncated ?? false } }) }, how: ["POST", "application/json", true], o, extra: 0 };
    });
  },
  async teardown(s) { s.w.close(); },
});

const set = (...a) => `{${a.map((x) => `"${x}"`).join(", ")}}`;
const C = { Ctxs: set("R1", "R2", "rec", "off", "plain"), Shapes: set("get"), Marks: set("absent"), Answers: set("mock200", "noMock", "reject"), MaxCalls: 1, MaxLen: 3 };
const INV = { invariants: ["Sealed", "Unaffected", "NothingInvented"] };
export default {
  property: "E04",
  assumptions: ["calls to the replay sidecar's own address are not calls to a real service", "service bindings and KV namespaces of a replayed request are outside this property (they are not fetch calls)"],
  models: [{
    name: "fetch", spec: "EdgeReplayFetch", driver: async () => driver(await loadShim()),
    runs: ({ tier }) => {
      const t = tier === "thorough";
      return [
        { name: "answers", cfg: { constants: { ...C, Ctxs: set("R1", "R2"), Shapes: set("get", "secret"), Answers: set(...Object.keys(answers)), MaxLen: 3 }, ...INV }, maxPaths: t ? undefined : 850 },
        { name: "shapes", cfg: { constants: { ...C, Shapes: set(...Object.keys(shapes)), Marks: set("absent", "true", "TRUE", "True", "1", "false", "yes", "true, true"), Answers: set("mock200", "passthrough"), MaxLen: 2 }, ...INV }, deepen: t ? 20000 : 1500, maxPaths: t ? undefined : 1500 },
        { name: "interleavings", cfg: { constants: { ...C, Marks: set("absent", "true"), Answers: set("mock200", "noMock"), MaxCalls: 2, MaxLen: 4 }, ...INV }, maxPaths: t ? undefined : 1500 },
        { name: "three calls", cfg: { constants: { ...C, Ctxs: set("R1", "R2", "rec"), Shapes: set("post"), Answers: set("mock200", "stallBody"), MaxCalls: 3, MaxLen: t ? 7 : 6 }, ...INV }, maxPaths: t ? 20000 : 800, walks: 50 },
      ];
    },
  }],
};
