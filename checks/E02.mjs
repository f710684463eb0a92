import { loadShim, RecorderWorld, RECORD, handBody } from "../harness/edge-recorder.mjs";
import { deferred, track } from "../lib/util.mjs";

const SECRET_ERR = () => Object.assign(new Error("app failed"), { code: "E_APP" });
// a thrown value of which no description can be had
const weird = () => Object.create(null);
// a class per world: the recorder patches its prototype
const makeKv = (w) => new (class KvNamespace {
  constructor(world) { this.world = world; }
  #op() { const d = deferred(); const c = { kv: true, answer: (v) => { c.open = false; d.resolve(v); }, fail: (e) => { c.open = false; d.reject(e); }, open: true }; this.world.kvCalls.push(c); return d.promise; }
  get() { return this.#op(); } getWithMetadata() { return this.#op(); } put() { return this.#op(); } delete() { return this.#op(); } list() { return this.#op(); }
})(w);

const driver = (inst) => ({
  async setup(init) {
    const { cfg } = init;
    const w = new RecorderWorld(inst);
    w.kvCalls = [];
    w.waitUntilThrows = cfg.wait === "throws";
    const s = { w, cfg, invoked: 0, seen: [], problems: [] };
    const sidecar = (c) => {
      if (!c.url.endsWith("/v1/events")) return false;
      const up = cfg.reach;
      if (up === "ok") c.answer(new Response(null, { status: 204 }));
      else if (up === "error") c.answer(new Response("no", { status: 500 }));
      else if (up === "reject") c.fail();
      else if (up === "badStatus") c.answer(new Response("not json", { status: 404 }));
      return true; // "never": left unanswered
    };
    w.handlers.push(sidecar);
    const bound = w.binding("sidecar"); const custom = w.binding("sidecar");
    const env = { SERVICE: w.binding("service"), ASSETS: w.binding("assets"), SKIPPED: w.binding("skipped"), KV: makeKv(w), OTHER: 5, NOTHING: null };
    const options = { skipBindings: ["SKIPPED"] };
    if (cfg.side === "envUrl" || cfg.side === "both") env.METICULOUS_SIDECAR_URL = RECORD + "/";
    if (cfg.side === "envBinding" || cfg.side === "both") env.METICULOUS_SIDECAR = bound;
    if (cfg.side === "optUrl") options.sidecarUrl = RECORD;
    if (cfg.side === "optBinding") options.sidecarBinding = custom;
    if (cfg.side === "junk") { env.METICULOUS_SIDECAR = { notFetch: 1 }; env.METICULOUS_SIDECAR_URL = 7; }
    if (cfg.side === "empty") { env.METICULOUS_SIDECAR = null; env.METICULOUS_SIDECAR_URL = ""; }
    s.env = env;
    s.request = cfg.kind === "post"
      ? new Request("https://app.example/save?x=1", { method: "POST", body: "request-body", headers: { "x-in": "1" } })
      : new Request("https://app.example/page", { headers: { "x-in": "1" } });
    // the app: obeys commands in the context it was invoked in
    s.cmds = []; s.wake = deferred();
    s.result = deferred();
    const make = (e) => {
      switch (e) {
        case "ok": return new Response("hello", { status: 200, headers: { "x-app": "a", "content-type": "text/plain" } });
        case "stream": { s.body = handBody(); return new Response(s.body.stream, { status: 200, headers: { "x-app": "a" } }); }
        case "redirect": return Response.redirect("https://app.example/next", 302);
        case "null204": return new Response(null, { status: 204, headers: { "x-app": "a" } });
        case "error500": return new Response("broken", { status: 500, headers: { "x-app": "a" } });
        case "upgrade": { const r = Response.redirect("https://app.example/ws", 307); Object.defineProperty(r, "webSocket", { value: {} }); return r; }
        case "throwError": case "rejectError": s.err = SECRET_ERR(); throw s.err;
        case "throwString": s.err = "plain string"; throw s.err;
        case "throwWeird": s.err = weird(); throw s.err;
      }
    };
    s.make = make;
    const loop = async () => {
      for (;;) {
        while (!s.cmds.length) { await s.wake.promise; s.wake = deferred(); }
        s.cmds.shift()();
      }
    };
    const handler = (request, env2, ctx) => {
      s.invoked++;
      if (request !== s.request) s.problems.push("the app got a different request");
      if (env2 !== env) s.problems.push("the app got a different env");
      if (cfg.wrap === "module" && ctx !== w.ctx) s.problems.push("the app got a different context");
      void loop();
      if (s.startWith === "wait") return s.result.promise;
      if (s.startWith === "rejectError") return Promise.reject((s.err = SECRET_ERR()));
      s.returned = make(s.startWith);
      return s.returned;
    };
    if (cfg.wrap === "module") {
      const mod = w.mod.withMeticulous({ fetch: handler, scheduled: 1 }, options);
      if (mod.scheduled !== 1) s.problems.push("other handlers are lost");
      s.run = () => mod.fetch(s.request, env, w.ctx);
    } else {
      const context = { request: s.request, env, waitUntil: (p) => w.ctx.waitUntil(p), params: {} };
      const fn = w.mod.withMeticulousPagesFunction((c) => { if (c !== context) s.problems.push("the function got a different context"); return handler(c.request, c.env, w.ctx); }, options);
      s.run = () => fn(context);
    }
    return s;
  },
  async step(s, act) {
    const { w } = s;
    const doIn = (f) => { s.cmds.push(f); s.wake.resolve(); };
    switch (act.n) {
      case "start": s.startWith = act.e; s.out = track((async () => s.run())()); break;
      case "end": doIn(() => { try { s.returned = s.make(act.e); s.result.resolve(s.returned); } catch (e) { s.result.reject(e); } }); break;
      case "call": {
        const k = s.seen.length; const rec = { via: act.via, out: { state: "pending" } }; s.seen.push(rec);
        doIn(() => {
          const before = w.calls.length;
          const go = async () => {
            const url = `https://api.example/call/${k}`; const init = k % 2 ? { method: "POST", body: `q=${k}`, headers: { "x-call": "c" } } : undefined;
            if (act.via === "kv") return { value: await s.env.KV.get(`key${k}`) };
            const target = { fetch: (a, b) => fetch(a, b), service: (a, b) => s.env.SERVICE.fetch(a, b), assets: (a, b) => s.env.ASSETS.fetch(a, b), skipped: (a, b) => s.env.SKIPPED.fetch(a, b) }[act.via];
            const r = await target(url, init);
            rec.status = r.status;
            return { status: r.status, header: r.headers.get("x-up"), text: await r.text() };
          };
          rec.out = track(go());
          rec.find = () => (act.via === "kv" ? w.kvCalls[w.kvCalls.length - 1] : w.calls.slice(before).find((c) => c.url.endsWith(`/call/${k}`)));
        });
        await w.settle();
        rec.net = rec.find();
        if (!rec.net) return "the call did not reach its target";
        if (act.via !== "kv") {
          await rec.net.ready;
          const want = k % 2 ? ["POST", `q=${k}`, "c"] : ["GET", undefined, undefined];
          const got = [rec.net.method, rec.net.body, rec.net.headers["x-call"]];
          if (JSON.stringify(want) !== JSON.stringify(got)) return `the call reached its target changed: ${JSON.stringify(got)}`;
          const n = w.calls.filter((c) => c.url.endsWith(`/call/${k}`)).length;
          if (n !== 1) return `the call was made ${n} times`;
        }
        break;
      }
      case "answer": {
        const rec = s.seen[act.i - 1];
        rec.answered = act.r;
        if (act.r === "reject") rec.net.fail((rec.err = new TypeError("upstream is down")));
        else if (act.r === "rejectWeird") rec.net.fail((rec.err = weird()));
        else if (rec.via === "kv") rec.net.answer("kv-value");
        else if (act.r === "empty") rec.net.answer(new Response(null, { status: 204, headers: { "x-up": "u" } }));
        else { rec.body = handBody(); rec.net.answer(new Response(rec.body.stream, { status: act.r === "ok" ? 200 : 503, headers: { "x-up": "u", "content-type": "text/plain" } })); rec.body.push("one,"); }
        break;
      }
      case "bodyEnd": { const rec = s.seen[act.i - 1]; if (act.ok) { rec.body.push("two"); rec.body.end(); } else rec.body.fail((rec.err = new Error("connection reset"))); break; }
    }
    await w.settle();
    if (s.problems.length) return s.problems[0];
    if (w.logged.some((l) => l[0] === "error")) return `error logged: ${w.logged.find((l) => l[0] === "error")[1]}`;
  },
  async observe(s, m) {
    const { w } = s;
    let out = s.out ? s.out.state : "none";
    if (out === "ok" && !s.outcome) {
      const r = s.out.value;
      const h = r.headers;
      s.outcome = { status: r.status, app: h.get("x-app"), location: h.get("location"), type: h.get("content-type"), same: r === s.returned || r.headers.get("x-meticulous-workerd-shim-version") !== null, timing: h.get("server-timing") };
      if (m.ending === "stream") { const b = s.body; b.push("first "); b.push("second"); b.end(); }
      s.outcome.text = await r.text();
    } else if (out === "error" && !s.outcome) s.outcome = { sameError: s.out.error === s.err };
    // of a value that has no description, anything may be said
    const weirdCall = (e) => { const k = /(?:call\/|^key)(\d+)$/.exec(e.url ?? e.key ?? "")?.[1]; return k !== undefined && s.seen[k]?.answered === "rejectWeird"; };
    const unsaid = (e) => (e.error !== undefined && typeof e.error === "string" && (e.kind === "inbound" ? m.ending === "throwWeird" : weirdCall(e)) ? { ...e, error: "(weird)" } : e);
    const ev = w.reported().map(unsaid).map((e) => (e.kind === "inbound"
      ? { kind: e.kind, method: e.method, url: e.url, out: e.error !== undefined ? { error: e.error } : { status: e.statusCode } }
      : e.kind === "kv" ? { kind: e.kind, name: e.bindingName, key: e.key, out: e.error !== undefined ? { error: e.error } : { value: e.result?.body } }
        : { kind: e.kind, name: e.bindingName ?? null, method: e.method, url: e.url, req: e.requestBody?.body ?? null, out: e.error !== undefined ? { error: e.error } : { status: e.statusCode, text: e.responseBody?.body ?? null } }));
    return { out, outcome: s.outcome ?? null, invoked: s.invoked, events: ev, patched: globalThis.fetch !== w.networkFetch, seen: s.seen.map((r) => (r.out.state === "ok" ? { ok: r.out.value } : r.out.state === "error" ? { err: r.out.error === r.err } : { pending: true, status: r.status ?? null })) };
  },
  expect(m, _act, s) {
    const over = m.app === "returned" || m.app === "threw";
    const R = { ok: [200, "a", null, "text/plain", "hello"], stream: [200, "a", null, null, "first second"], redirect: [302, null, "https://app.example/next", null, ""], null204: [204, "a", null, null, ""], error500: [500, "a", null, "text/plain;charset=UTF-8", "broken"], upgrade: [307, null, "https://app.example/ws", null, ""] };
    let outcome = null;
    if (m.app === "returned") { const [status, app, location, type, text] = R[m.ending]; outcome = { status, app, location, type, same: true, timing: null, text }; }
    else if (m.app === "threw") outcome = { sameError: true };
    const recording = ["envUrl", "envBinding", "optUrl", "optBinding", "both"].includes(m.cfg.side);
    const events = m.sent.map((e) => {
      if (e.kind === "inbound") return { kind: "inbound", method: m.cfg.kind === "post" ? "POST" : "GET", url: m.cfg.kind === "post" ? "https://app.example/save?x=1" : "https://app.example/page", out: m.app === "threw" ? { error: m.ending === "throwString" ? "plain string" : m.ending === "throwWeird" ? "(weird)" : "Error: app failed" } : { status: R[m.ending][0] } };
      const k = e.i - 1;
      if (e.kind === "kv") return { kind: "kv", name: "KV", key: `key${k}`, out: e.how === "reject" ? { error: "TypeError: upstream is down" } : e.how === "rejectWeird" ? { error: "(weird)" } : { value: '"kv-value"' } };
      const st = { ok: 200, okBroken: 200, bad: 503, badBroken: 503, empty: 204 }[e.how];
      return { kind: e.kind === "fetch" ? "outbound" : "binding", name: e.kind === "fetch" ? null : "SERVICE", method: k % 2 ? "POST" : "GET", url: `https://api.example/call/${k}`, req: k % 2 ? `q=${k}` : null,
        out: e.how === "reject" ? { error: "TypeError: upstream is down" } : e.how === "rejectWeird" ? { error: "(weird)" } : { status: st, text: e.how === "ok" || e.how === "bad" ? "one,two" : null } };
    });
    const seen = m.calls.map((c) => {
      if (c.st === "flight") return { pending: true, status: null };
      const st = { ok: 200, bad: 503, empty: 204 }[c.how.replace("Broken", "")];
      if (c.st === "body") return { pending: true, status: st };
      if (c.how === "reject" || c.how === "rejectWeird" || c.how.endsWith("Broken")) return { err: true };
      if (c.via === "kv") return { ok: { value: "kv-value" } };
      return { ok: { status: st, header: "u", text: c.how === "empty" ? "" : "one,two" } };
    });
    return { out: m.app === "idle" ? "none" : m.app === "running" ? "pending" : m.app === "returned" ? "ok" : "error", outcome, invoked: m.app === "idle" ? 0 : 1, events, patched: recording && m.app !== "idle", seen };
  },
  async teardown(s) { s.w.close(); },
});

const set = (...a) => `{${a.map((x) => `"${x}"`).join(", ")}}`;
const INV = { invariants: ["ReportedOnce", "TrueOutcome", "NothingWithoutConfiguration", "EveryCallReported", "SentAtRest"] };
const C = { Wraps: set("module", "pages"), Sides: set("none", "empty", "junk", "envUrl", "envBinding", "optUrl", "optBinding", "both"), Waits: set("works", "throws"), Reaches: set("ok", "error", "reject", "never", "badStatus"), Kinds: set("get", "post"),
  Endings: set("ok", "stream", "redirect", "null204", "error500", "upgrade", "throwError", "throwString", "throwWeird", "rejectError"), Vias: set("fetch", "service", "kv", "assets", "skipped"), Results: set("ok", "bad", "empty", "reject", "rejectWeird"), MaxCalls: 0, MaxLen: 2 };
export default {
  property: "E02",
  assumptions: ["in an upgrade the runtime marks the response with webSocket", "headers added by the recorder itself (its version, a minted session id) are not part of the app's response"],
  models: [{
    name: "request", spec: "EdgeRequest",
    driver: async () => driver(await loadShim()),
    runs: ({ tier }) => {
      const t = tier === "thorough";
      return [
        { name: "configurations", cfg: { constants: C, ...INV }, maxPaths: t ? undefined : 3000 },
        { name: "calls", cfg: { constants: { ...C, Wraps: set("module"), Sides: set("none", "envUrl", "optBinding"), Waits: set("works"), Reaches: set("ok", "never"), Kinds: set("get"), Endings: set("ok", "throwError", "throwWeird"), MaxCalls: 2, MaxLen: 6 }, ...INV }, maxPaths: t ? 60000 : 2500, walks: t ? 1000 : 100 },
      ];
    },
  }],
};
