import { bundle } from "../lib/bundle.mjs";
import { FakeClock, settle, real } from "../lib/clock.mjs";
import { deferred } from "../lib/util.mjs";

const HALF = "h".repeat(1024 * 1024), FULL = "f".repeat(2 * 1024 * 1024);
// the large field of an event, by event number, so that every kind of body counts
const base = (n) => ({ requestId: "r", frontendSessionId: "s", traceId: "t".repeat(32), serverSpanId: "0".repeat(16), tag: n, startTimeMs: 1, endTimeMs: 2 });
const SHAPES = [
  (n, b) => ({ kind: "outbound", ...base(n), method: "GET", url: "https://x.example/", requestHeaders: {}, statusCode: 200, ...(b ? { responseBody: b } : {}) }),
  (n, b) => ({ kind: "outbound", ...base(n), method: "POST", url: "https://x.example/", requestHeaders: {}, statusCode: 200, ...(b ? { requestBody: b } : {}) }),
  (n, b) => ({ kind: "binding", ...base(n), method: "GET", url: "https://x.example/", requestHeaders: {}, statusCode: 200, ...(b ? { responseBody: b } : {}) }),
  (n, b) => ({ kind: "kv", ...base(n), operation: "put", ...(b ? { value: b } : {}) }),
  (n, b) => ({ kind: "kv", ...base(n), operation: "get", ...(b ? { result: b } : {}) }),
  (n, b) => ({ kind: "postgres", ...base(n), queryText: "select 1", params: b ? b.body : "[]" }),
];
const mkEvent = (n, size, seed) => SHAPES[(n + seed) % SHAPES.length](n, size === 0 ? undefined : { body: size === 1 ? HALF : FULL, truncated: false });

const driver = (mod) => ({
  async setup(init) {
    const clock = new FakeClock().install();
    const warn = console.warn; console.warn = () => {};
    const s = { clock, warn, n: 0, sent: [], flight: [], held: [], prods: [], bad: undefined, throws: init.sync === "throws", kind: init.kind };
    const send = (url, init2) => {
      if (s.throws) { const err = new TypeError("fetch failed"); const ev = JSON.parse(init2.__body).events.map((e) => e.tag); s.sent.push(ev); throw err; }
      const d = deferred();
      const tags = JSON.parse(init2.__body).events.map((e) => e.tag);
      s.sent.push(tags);
      const rec = { tags, d, open: true };
      const sig = init2.signal;
      sig?.addEventListener("abort", () => { if (rec.open) { rec.open = false; rec.aborted = true; d.reject(sig.reason); rec.ctrl?.error(sig.reason); } });
      s.flight.push(rec);
      return d.promise;
    };
    const check = (u, method, headers) => {
      if (new URL(u).pathname !== "/v1/events" || method !== "POST") s.bad ??= `events sent to ${method} ${u}`;
      if (new Headers(headers).get("x-meticulous-sidecar-protocol-version") !== "2") s.bad ??= "protocol version header is missing";
      if (s.kind === "url" && !u.startsWith("http://127.0.0.1:9999/")) s.bad ??= `wrong origin ${u}`;
    };
    globalThis.fetch = (u, i) => { check(String(u), i.method, i.headers); if (s.kind !== "url") s.bad ??= "global fetch used for a binding"; return send(String(u), { __body: i.body, signal: i.signal }); };
    // a Request whose body can be read synchronously
    s.RealRequest = globalThis.Request;
    globalThis.Request = class { constructor(u, i) { this.url = String(u); this.method = i?.method ?? "GET"; this.headers = new Headers(i?.headers); this.__body = i?.body; this.signal = i?.signal; } };
    const binding = { fetch: (r) => { check(r.url, r.method, r.headers); return send(r.url, r); } };
    const transport = s.kind === "url" ? { kind: "url", url: "http://127.0.0.1:9999" } : { kind: "binding", fetcher: binding, instance: binding };
    s.buffer = new mod.CaptureBuffer(transport, (p) => {
      const h = { open: true }; s.held.push(h);
      p.then(() => { h.open = false; }, (e) => { h.open = false; s.bad ??= `a promise given to waitUntil rejected: ${e}`; });
    });
    return s;
  },
  async step(s, act) {
    const add = (size) => { s.buffer.add(mkEvent(++s.n, size, s.prods.length)); };
    const track = () => {
      const d = deferred(); s.prods.push(d);
      s.buffer.track(async () => {
        const how = await d.promise;
        if (how.how === "event" || how.how === "nested" || how.how === "failAfter") add(how.size);
        if (how.how === "nested") track();
        if (how.how === "fail" || how.how === "failAfter") throw new Error("producer failed");
      }, "k", "m");
    };
    try {
      switch (act.n) {
        case "add": add(act.size); break;
        case "track": track(); break;
        case "settle": s.prods[act.p - 1].resolve(act); break;
        case "close": {
          const p = s.buffer.close(); const h = { open: true }; s.held.push(h);
          p.then(() => { h.open = false; }, (e) => { h.open = false; s.bad ??= `close rejected: ${e}`; });
          break;
        }
        case "answer": {
          const r = s.flight.find((x) => x.open && x.tags.join() === act.req.join());
          if (!r) return `no request in flight with events ${act.req}`;
          if (act.a === "stall") { r.d.resolve(new Response(new ReadableStream({ start(c) { r.ctrl = c; } }), { status: 200 })); break; }
          r.open = false;
          if (act.a === "ok") r.d.resolve(new Response(null, { status: 204 }));
          else if (act.a === "error") r.d.resolve(new Response("busy", { status: 503 }));
          else if (act.a === "badBody") r.d.resolve(new Response(new ReadableStream({ start(c) { c.error(new Error("reset")); } }), { status: 200 }));
          else r.d.reject(new TypeError("fetch failed"));
          break;
        }
        case "timeout": {
          await settle();
          const ms = s.kind === "url" ? 2000 : 10000;
          await s.clock.advance(ms - 1);
          if (s.flight.some((x) => x.aborted && !x.seen)) return "a request was given up before its time limit";
          await s.clock.advance(1);
          for (const x of s.flight) x.seen = true;
          break;
        }
      }
    } catch (e) { return `${act.n} threw: ${e}`; }
    await settle();
  },
  observe(s) {
    return { bad: s.bad ?? null, sent: s.sent, open: s.flight.filter((x) => x.open).map((x) => x.tags.join()).sort(), held: s.held.some((h) => h.open) };
  },
  expect(m) {
    const open = [...(m.chain.length ? [m.chain[0].join()] : []), ...m.late.map(String)].sort();
    const running = m.prod.some((p) => p === "running");
    return { bad: null, sent: m.sent, open, held: m.chain.length > 0 || m.late.length > 0 || m.phase === "closing" || (m.phase === "closed" && running) };
  },
  // everything still open ends: nothing may stay undelivered
  async finish(s) {
    if (!s.held.length) { const p = s.buffer.close(); const h = { open: true }; s.held.push(h); p.then(() => { h.open = false; }); }
    for (const d of s.prods) d.resolve({ how: "none" });
    await settle();
    for (let i = 0; i < 40; i++) { for (const r of s.flight) if (r.open) { r.open = false; r.d.resolve(new Response(null, { status: 204 })); } await settle({ rounds: 2 }); }
    if (s.bad) return s.bad;
    if (s.clock.pending().length) return "a timer is left running after everything was answered";
  },
  async teardown(s) { s.clock.uninstall(); console.warn = s.warn; globalThis.fetch = real.fetch; globalThis.Request = s.RealRequest; },
});

const set = (...a) => `{${a.map((x) => (typeof x === "number" ? x : `"${x}"`)).join(", ")}}`;
const INV = { invariants: ["ExactlyOnce", "InOrder", "BatchesInOrder", "NothingLeft", "OutstandingIsHeld"] };
const C = { Kinds: set("url", "binding"), Faults: "TRUE", AddSizes: set(0, 1, 2), Sizes: set(0, 2), Ends: set("event", "none", "fail"), Answers: set("ok", "reject"), MaxProducers: 2, MaxEvents: 4, MaxLen: 6, Rounds: 4 };
export default {
  property: "E01",
  assumptions: ["capture of an event is the call that adds it to the request's buffer; what each instrumentation puts into an event is decided by E07 and S03"],
  models: [{
    name: "buffer", spec: "EdgeBuffer",
    driver: async () => driver((await bundle("backend-recorder-workerd/src/capture-buffer.ts"))()),
    runs: ({ tier }) => {
      const t = tier === "thorough";
      return [
        { name: "interleavings", cfg: { constants: { ...C, MaxLen: t ? 7 : 6 }, ...INV }, maxPaths: t ? 60000 : 3000, walks: t ? 500 : 50 },
        { name: "answers", cfg: { constants: { ...C, AddSizes: set(0, 2), Sizes: set(2), Ends: set("event"), Answers: set("ok", "error", "reject", "badBody"), MaxProducers: 1, MaxEvents: 3, MaxLen: 7 }, ...INV }, maxPaths: t ? undefined : 1500 },
        { name: "drain", cfg: { constants: { ...C, Kinds: set("url"), Faults: "FALSE", AddSizes: "{}", Sizes: set(0), Ends: set("nested", "event", "failAfter"), Answers: set("ok"), MaxProducers: t ? 8 : 7, MaxEvents: 8, MaxLen: t ? 11 : 9 }, ...INV }, maxPaths: t ? undefined : 2500 },
      ];
    },
  }],
};
