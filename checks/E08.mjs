import { loadShim, RecorderWorld, RECORD } from "../harness/edge-recorder.mjs";
import { deferred, track } from "../lib/util.mjs";

const weird = () => Object.create(null);
/** What the app's platform offers: shared prototypes, as in workerd, whose methods check their receiver. */
const platform = (s) => {
  const own = new WeakMap(); const begin = (self, op, args) => {
    if (!own.has(self)) throw new TypeError("Illegal invocation");
    const d = deferred(); const c = { name: own.get(self), op, args, self, d, open: true, n: args[0] }; s.reached.push(c); return d.promise; };
  class Fetcher { constructor(n) { own.set(this, n); } fetch(...a) { return begin(this, "fetch", a); } connect() { return "socket"; } }
  class DurableObject extends Fetcher {}
  class KvNamespace { constructor(n) { own.set(this, n); } get(...a) { return begin(this, "get", a); } getWithMetadata(...a) { return begin(this, "getWithMetadata", a); } put(...a) { return begin(this, "put", a); } delete(...a) { return begin(this, "delete", a); } list(...a) { return begin(this, "list", a); } }
  class SubNamespace extends KvNamespace {}
  // as postgres.js: a query runs when it is first awaited
  class Query extends Promise {
    constructor(strings, args, handler, canceller, options = {}) {
      let resolve, reject; super((a, b) => { resolve = a; reject = b; });
      this.tagged = Array.isArray(strings.raw); this.strings = strings; this.args = args; this.handler = handler; this.options = options; this.state = null; this.isRaw = false; this.onlyDescribe = false;
      this.resolve = (x) => (this.active = false, resolve(x)); this.reject = (x) => (this.active = false, reject(x)); this.active = false; this.executed = false;
    }
    static get [Symbol.species]() { return Promise; }
    raw() { this.isRaw = true; return this; } values() { this.isRaw = "values"; return this; } describe() { this.onlyDescribe = true; return this; }
    cursor(n, fn) { this.cursorRows = n; this.cursorFn = fn; return this; } forEach(fn) { this.forEachFn = fn; this.handle(); return this; } readable() { this.streaming = true; return this; }
    async handle() { if (!this.executed && (this.executed = true) && (await 1, true)) this.handler(this); }
    execute() { this.handle(); return this; }
    then() { this.handle(); return super.then.apply(this, arguments); } catch() { this.handle(); return super.catch.apply(this, arguments); } finally() { this.handle(); return super.finally.apply(this, arguments); }
  }
  const handler = (q) => { s.reached.push({ name: "PG", op: "query", q, args: [q.strings, q.args], d: { resolve: (v) => q.resolve(v), reject: (e) => q.reject(e) }, open: true }); };
  const sql = (strings, ...args) => new Query(strings, args, handler); sql.unsafe = (text, args = []) => new Query([text], args, handler, null, { prepare: false });
  return { Fetcher, DurableObject, KvNamespace, SubNamespace, Query, sql, unowned: own };
};
const open = (inst, side) => {
  const w = new RecorderWorld(inst); const s = { w, reached: [], who: {} }; const p = s.p = platform(s);
  w.handlers.push((c) => { if (c.url.endsWith("/v1/events")) { c.answer(new Response(null, { status: 204 })); return true; } },
    (c) => { if (new URL(c.url).pathname === "/v1/replay/session") { c.answer(Response.json({ found: true })); return true; } });
  const f = (n) => new p.Fetcher(n);
  const service = f("SERVICE");
  s.env = { SERVICE: service, SECOND: f("SECOND"), ASSETS: f("ASSETS"), SKIPPED: f("SKIPPED"), KV: new p.KvNamespace("KV"), KVSUB: new p.SubNamespace("KVSUB"), KVSKIPPED: new p.KvNamespace("KVSKIPPED"),
    OWN: { fetch: (...a) => { const d = deferred(); s.reached.push({ name: "OWN", op: "fetch", args: a, d, open: true }); return d.promise; } }, TEXT: "text", NOTHING: null, NUMBER: 7 };
  // a stub is handed out by its namespace; "bare": nothing on env is recorded by itself
  s.stub = new p.DurableObject("STUB");
  if (side === "bare") for (const k of ["SERVICE", "SECOND", "KV", "KVSUB"]) delete s.env[k];
  s.alias = f("ALIAS"); if (side !== "bare") s.env.ALIAS_ONE = s.env.ALIAS_TWO = s.alias;
  s.options = { skipBindings: ["SKIPPED", "KVSKIPPED"] };
  // the sidecar's own binding
  const takes = f("SIDECAR"); if (side === "url" || side === "bare") s.env.METICULOUS_SIDECAR_URL = RECORD; else { s.sidecar = takes; if (side === "binding") s.env.METICULOUS_SIDECAR = takes; else { s.env.MY_SIDECAR = takes; s.options.sidecarBinding = takes; } }
  s.events = [];
  s.sql = w.mod.withMeticulousPostgres(p.sql); if (s.sql !== p.sql) throw new Error("the client was replaced");
  w.mod.withMeticulousPostgres(p.sql);
  return s;
};
/** What the sidecar was sent, through its binding or over the network. */
const gather = async (s) => {
  for (let k = 0; k < 4; k++) {
    await s.w.settle();
    for (const c of s.reached.filter((x) => x.name === "SIDECAR" && x.open)) { const r = c.args[0]; if (!(r instanceof Request) || !r.url.endsWith("/v1/events")) continue; c.open = false; c.report = true; s.events.push(...JSON.parse(await r.text()).events); c.d.resolve(new Response(null, { status: 204 })); }
  }
  return [...s.events, ...s.w.reported()];
};
/** A worker whose code runs as told, also after its response has been returned. */
const worker = (s) => s.w.mod.withMeticulous({ fetch: async (request, env) => {
  const me = s.who[new URL(request.url).pathname.slice(1)]; const done = deferred();
  (async () => { for (;;) { const cmd = await me.next.promise; me.next = deferred(); cmd(env); me.ack.resolve(); } })();
  me.finish = () => done.resolve(new Response("page of " + request.url)); me.up = true; return done.promise;
} }, s.options);
const tell = async (s, who, fn) => { if (who === "outside") return fn(s.env); const me = s.who[who]; me.ack = deferred(); me.next.resolve(fn); await me.ack.promise; };
const start = async (s, who) => {
  s.who[who] = { next: deferred() };
  const h = who === "replay" ? { "x-meticulous-backend-replay-sidecar-url": "http://127.0.0.1:9670", "x-meticulous-session-id": "s", "x-meticulous-replay-id": "r" } : { "x-meticulous-session-id": `session-of-${who}` };
  s.h ??= worker(s); s.who[who].out = track(s.h.fetch(new Request(`https://app.example/${who}`, { headers: h }), { ...s.env }, s.w.ctx)); await s.w.settle();
  if (!s.who[who].up) return "the app was not invoked";
};

const NAMES = { service: "SERVICE", second: "SECOND", alias: "ALIAS", assets: "ASSETS", skipped: "SKIPPED", own: "OWN", stub: "STUB", kv: "KV", kvsub: "KVSUB", kvskipped: "KVSKIPPED", pg: "PG", sidecar: "SIDECAR" };
const callsDriver = (inst) => ({
  async setup(init) { const s = open(inst, init.side); s.calls = []; return s; },
  async step(s, act, to) {
    const { w } = s;
    if (act.n === "start") return start(s, act.who);
    if (act.n === "end") { s.who[act.who].finish(); await gather(s); return; }
    if (act.n === "call") {
      const i = s.calls.length + 1; const c = { i, res: act.res, who: act.who }; s.calls.push(c);
      await tell(s, act.who, (env) => {
        const e = { service: env.SERVICE, second: env.SECOND, alias: s.alias, assets: env.ASSETS, skipped: env.SKIPPED, own: env.OWN, stub: s.stub, kv: env.KV, kvsub: env.KVSUB, kvskipped: env.KVSKIPPED, sidecar: s.sidecar }[act.res]; c.on = e;
        const p = act.res === "pg" ? s.sql`select ${i} from t where x = ${"x" + i}` : act.res.startsWith("kv") ? e[["get", "list", "delete", "getWithMetadata"][i % 4]](i % 4 === 1 ? { prefix: `k${i}` } : `k${i}`, ...(i % 4 === 0 ? ["text"] : []))
          : e.fetch(`https://${act.res}.example/c${i}`, { method: "POST", body: `b${i}`, headers: { "x-n": String(i) } });
        c.out = track(act.res === "pg" ? p.then((x) => x) : p); });
      await w.settle();
      // it has reached the resource, once, as the app made it
      const r = s.reached.filter((x) => x.name === NAMES[act.res] && !x.report && !x.owner); if (r.length !== 1) return `${r.length} calls reached ${act.res}`;
      c.at = r[0]; r[0].owner = c; if (c.on && r[0].self !== c.on && act.res !== "own") return "it reached another receiver";
      if (act.res === "pg") { if (r[0].q.strings.join("?") !== "select ? from t where x = ?" || JSON.stringify(r[0].q.args) !== JSON.stringify([i, "x" + i])) return "another query is run"; }
      else if (act.res.startsWith("kv")) { if (JSON.stringify(r[0].args) !== JSON.stringify(i % 4 === 1 ? [{ prefix: `k${i}` }] : [`k${i}`, ...(i % 4 === 0 ? ["text"] : [])])) return `arguments ${JSON.stringify(r[0].args)}`; }
      else { const q = new Request(...r[0].args); if (q.url !== `https://${act.res}.example/c${i}` || q.method !== "POST" || q.headers.get("x-n") !== String(i) || (await q.text()) !== `b${i}`) return "another request reached the binding"; }
      return;
    }
    const c = s.calls[act.i - 1]; c.at.open = false;
    if (act.k === "error") c.at.d.reject(c.error = Object.assign(new Error(`error of ${c.i}`), { code: "E" }));
    else c.at.d.resolve(c.value = c.res === "pg" ? Object.assign([{ n: c.i }], { count: 1, command: "SELECT", columns: [{ name: "n", type: 23, table: 1, number: 1 }], statement: { string: "select", types: [23], name: "s" } }) : c.res.startsWith("kv") ? { v: c.i } : new Response(`answer ${c.i}`));
    await gather(s);
    if (act.k === "ok" && c.value instanceof Response && c.out.state === "ok") c.text = await c.out.value.text();
    await gather(s);
  },
  async observe(s, to) { s.got = await gather(s); const id = {};
    for (const e of s.got) if (e.kind === "inbound") id[e.requestId] = new URL(e.url).pathname.slice(1);
    const of = (e) => (e.kind === "kv" ? e.key ?? /"prefix":"(k\d+)"/.exec(e.args?.body)?.[1] : e.kind === "postgres" ? `c${JSON.parse(e.params)[0]}` : e.kind === "inbound" ? "inbound" : new URL(e.url).pathname.slice(1)) ?? "?";
    const rep = {}; for (const r of ["r1", "r2"]) if (to.reqs[r] === "over") rep[r] = [];
    for (const e of s.got) { const r = id[e.requestId]; if (!r) { if (!Object.values(to.reqs).includes("open")) (rep.stray ??= []).push(of(e)); continue; }
      const c = s.calls[+(/\d+$/.exec(of(e)) ?? [0])[0] - 1];
      const ok = e.kind === "inbound" ? true : c && (e.kind === "postgres" ? e.queryText === "select $1 from t where x = $2" && (c.error ? JSON.parse(e.errorJson ?? "{}").message === c.error.message : JSON.parse(e.result?.body ?? "{}").rows?.[0]?.n === c.i)
        : e.kind === "kv" ? e.bindingName === NAMES[c.res] && e.operation === ["get", "list", "delete", "getWithMetadata"][c.i % 4] && (c.error ? String(e.error).includes(c.error.message) : e.result?.body === `{"v":${c.i}}`)
        : (c.res === "alias" ? /^ALIAS_(ONE|TWO)$/.test(e.bindingName) : c.res === "stub" ? e.bindingName === undefined : e.bindingName === NAMES[c.res]) && e.kind === "binding" && (c.error ? String(e.error).includes(c.error.message) : e.statusCode === 200 && e.responseBody.body === `answer ${c.i}`)) && e.frontendSessionId === `session-of-${r}` && e.traceId && e.serverSpanId && e.startTimeMs <= e.endTimeMs;
      (rep[r] ??= []).push(ok ? of(e) : `wrong ${JSON.stringify(e)}`); }
    for (const r of Object.keys(rep)) rep[r].sort();
    return { reported: rep, app: s.calls.map((c) => (c.out.state === "ok" ? (c.text !== undefined ? c.text === `answer ${c.i}` : c.out.value === c.value) : c.out.state === "error" ? c.out.error === c.error && "error" : c.out.state)), reached: s.reached.filter((x) => !x.report).length,
      pages: Object.fromEntries(Object.entries(s.who).map(([k, m]) => [k, m.out.state])) }; },
  expect(m) {
    const rep = {}; for (const r of ["r1", "r2"]) if (m.reqs[r] === "over") rep[r] = ["inbound", ...m.calls.flatMap((c, i) => (c.who === r && c.st !== "pending" && ["service", "second", "alias", "stub", "kv", "kvsub", "pg"].includes(c.res) ? [`${c.res.startsWith("kv") ? "k" : "c"}${i + 1}`] : []))].sort();
    return { reported: rep, app: m.calls.map((c) => ({ pending: "pending", ok: true, error: "error" })[c.st]), reached: m.calls.length, pages: Object.fromEntries(Object.entries(m.reqs).filter(([, v]) => v !== "none").map(([k, v]) => [k, v === "over" ? "ok" : "pending"])) };
  },
  async teardown(s) { for (const c of s.calls) if (c.out.state === "pending") c.at?.d.reject(new Error("over")); for (const m of Object.values(s.who)) m.finish?.(); await gather(s); s.w.close(); },
});

// ------------------------------------------------------------------- data
const KV = { get: ["k"], getJson: ["k", "json"], getOptions: ["k", { type: "text", cacheTtl: 60 }], getMany: [["a", "b"], "json"], getMeta: ["k", "text"], put: ["k", "plain text"], putJson: ["k", '{"a":[1,{"token":"t"}]}'], putOptions: ["k", "v", { expirationTtl: 60, metadata: { a: 1 } }], putLong: ["k", "l".repeat(300_000)], delete: ["k"], list: [], listPrefix: [{ prefix: "p", limit: 5, cursor: "c" }] };
const kvArgs = (h) => (h === "putBytes" ? ["k", new Uint8Array([1, 2, 255])] : h === "putStream" ? ["k", new ReadableStream({ start(c) { c.close(); } })] : KV[h]);
const kvResult = (o) => ({ text: "some text", null: null, undefined, object: { a: [1, { b: null }], "ü": "✓" }, map: new Map([["a", { x: 1 }], ["b", null]]), list: { keys: [{ name: "a", metadata: { m: 1 } }], list_complete: true, cacheStatus: null }, long: { t: "x".repeat(300_000) }, bytes: new Uint8Array([1, 2]).buffer, view: new Uint8Array([3]), stream: new ReadableStream(), number: 0, false: false, emptyText: "", cyclic: (() => { const o = {}; o.o = o; return o; })() })[o];
const kvJson = (o) => JSON.stringify(o === "map" ? Object.fromEntries(kvResult(o)) : kvResult(o));
const dataDriver = (inst) => ({
  async setup(init) { const s = open(inst, "url"); s.init = init; s.bad = []; const e = await start(s, "r1"); if (e) throw new Error(e); return s; },
  async step(s, act, to) {
    const { kind, how, out, report } = to; const { w, bad } = s; let p, given;
    const rows = () => { const meta = { count: 2, command: "SELECT", columns: [{ name: "n", type: 23, table: 5, number: 1 }], statement: { string: "select 1", types: [23], name: "s1" } };
      return { rows: Object.assign([{ n: 1, t: "✓" }, { n: null, t: "" }], meta), none: Object.assign([], { ...meta, count: 0 }), update: Object.assign([], { count: 3, command: "UPDATE" }), bigint: Object.assign([{ n: 10n }], meta), cyclicRow: (() => { const o = {}; o.o = o; return Object.assign([o], meta); })(),
        several: [Object.assign([{ a: 1 }], meta), Object.assign([], { count: 0, command: "SET" })], arrays: Object.assign([[1, "x"], [2, null]], meta), long: Object.assign([{ t: "y".repeat(300_000) }], meta) }[out]; };
    const err = out === "error" ? Object.assign(new Error("broken"), { code: "E1" }) : out === "pgError" ? Object.assign(new Error("duplicate key"), { name: "PostgresError", code: "23505", detail: "Key (id)=(1)", query: "select", parameters: [1], args: [2], types: [] }) : out === "errorWeird" ? weird() : undefined;
    await tell(s, "r1", (env) => {
      if (kind === "service") {
        const u = "https://svc.example/p?q=%20✓"; const rq = () => new Request(u, { method: "PUT", body: "body", headers: { "x-a": "1" } });
        given = { text: ["https://svc.example/p?q=1"], init: [u, { method: "PATCH", body: "b2", headers: [["x-a", "2"]] }], url: [new URL(u)], request: [rq()], requestInit: [rq(), { method: "POST", body: "other" }], stream: [u, { method: "POST", duplex: "half", body: new ReadableStream({ start(c) { c.enqueue(new TextEncoder().encode("streamed ")); c.enqueue(new TextEncoder().encode("body")); c.close(); } }) }], head: [u, { method: "HEAD" }], bytes: [u, { method: "POST", body: new Uint8Array([0, 255, 128]) }], invalid: ["not a url"] }[how];
        s.given = { text: ["https://svc.example/p?q=1", "GET", ""], init: [new URL(u).href, "PATCH", "b2"], url: [new URL(u).href, "GET", ""], request: [new URL(u).href, "PUT", "body"], requestInit: [new URL(u).href, "POST", "other"], stream: [new URL(u).href, "POST", "streamed body"], head: [new URL(u).href, "HEAD", ""], bytes: [new URL(u).href, "POST", "\u0000\ufffd\ufffd"], invalid: null }[how];
        p = env.SERVICE.fetch(...given);
      } else if (kind === "kv") { given = kvArgs(how); p = env.KV[report.op](...given); }
      else {
        const q = { tagged: () => s.sql`select * from t where a = ${1} and b = ${"✓"}`, none: () => s.sql`select 1`, raw: () => s.sql`select ${1}`.raw(), values: () => s.sql`select ${1}`.values(), unsafe: () => s.sql.unsafe("select $1", [5]), dates: () => s.sql`insert into t values (${new Date(0)}, ${null}, ${{ a: 1 }})`, executed: () => s.sql`select ${2}`.execute(), twice: () => { const x = s.sql`select ${3}`; x.then(() => {}, () => {}); return x; },
          describe: () => s.sql`select ${1}`.describe(), cursor: () => s.sql`select 1`.cursor(10, () => {}), forEach: () => s.sql`select 1`.forEach(() => {}), stream: () => s.sql`select 1`.readable(), fragment: () => { const x = s.sql`x`; x.strings = null; return x; } }[how]();
        s.query = q; p = q.then((x) => x);
      }
      s.app = track(p);
    });
    await w.settle();
    const r = s.reached.filter((x) => x.name === { service: "SERVICE", kv: "KV", pg: "PG" }[kind]); if (r.length !== 1) return `reached ${r.length} times`;
    const at = r[0];
    if (kind === "kv" && (at.args.length !== given.length || at.args.some((a, i) => a !== given[i]))) bad.push("other arguments");
    if (kind === "service") { if (how === "invalid") { if (at.args[0] !== "not a url") bad.push("other arguments"); } else { const q = new Request(...at.args); const body = await q.text(); if (JSON.stringify([q.url, q.method, body]) !== JSON.stringify(s.given)) bad.push(`other request ${JSON.stringify([q.url, q.method, body])}`); } }
    if (kind === "pg" && at.q !== s.query) bad.push("another query");
    const value = kind === "kv" ? kvResult(out) : kind === "pg" ? rows() : out === "ok" ? new Response("hello ✓", { headers: { "content-type": "text/x" } }) : out === "empty" ? new Response(null, { status: 204 }) : out === "status" ? new Response("no", { status: 503 }) : out === "socket" ? Object.defineProperty(new Response(null), "webSocket", { value: { accept() {} } }) : undefined;
    if (err !== undefined) at.d.reject(err); else at.d.resolve(value);
    await gather(s);
    if (err !== undefined ? s.app.state !== "error" || s.app.error !== err : s.app.state !== "ok" || s.app.value !== value) bad.push(`the app was given ${s.app.state} ${out}`);
    if (out === "ok" && kind === "service" && (await value.text()) !== "hello ✓") bad.push("changed body");
    s.who.r1.finish(); const all = await gather(s); const es = all.filter((e) => e.kind !== "inbound"); s.es = es;
    if (es.length !== (report.reported ? 1 : 0)) { bad.push(`${es.length} reports`); return; }
    if (!es.length) return; const e = es[0]; const b = (x) => x?.body;
    if (kind === "service") {
      if (e.kind !== "binding" || e.bindingName !== "SERVICE" || e.method !== s.given[1] || e.url !== s.given[0]) bad.push(`reported ${JSON.stringify(e)}`);
      if (s.given[2] ? b(e.requestBody) !== s.given[2] : b(e.requestBody)) bad.push("request body");
      if (report.failed ? e.error === undefined || e.statusCode !== undefined : e.statusCode !== { ok: 200, empty: 204, status: 503 }[out] || (b(e.responseBody) ?? "") !== { ok: "hello ✓", empty: "", status: "no" }[out]) bad.push(`outcome ${JSON.stringify(e)}`);
      if (out === "error" && !e.error.includes("broken")) bad.push("error text");
      if (out === "ok" && e.responseHeaders["content-type"]?.[0] !== "text/x") bad.push("response headers");
    } else if (kind === "kv") {
      if (e.bindingName !== "KV" || e.operation !== report.op || (report.key ? e.key !== "k" : e.key !== undefined)) bad.push(`reported ${JSON.stringify(e).slice(0, 200)}`);
      const a = JSON.parse(b(e.args)); const want = JSON.parse(JSON.stringify(given.map((x, i) => (report.op === "put" && i === 1 ? null : x)))); if (JSON.stringify(a) !== JSON.stringify(want)) bad.push(`arguments ${b(e.args)}`);
      const free = (x) => report.omitted !== "no" && (x === undefined || x.body === "null"); if ((e.value !== undefined) !== report.value && !free(e.value)) bad.push("value"); if (!report.unsure && (e.result !== undefined) !== report.result && !free(e.result)) bad.push(`result ${JSON.stringify(e.result)}`);
      if ((e.omitted ?? "no") !== report.omitted) bad.push(`omitted ${e.omitted}`); if ((e.error !== undefined) !== report.failed) bad.push("error");
      if (out === "error" && !e.error.includes("broken")) bad.push("error text");
      if (report.value) { const full = JSON.stringify(how === "putJson" ? '{"a":[1,{"token":"REDACTED"}]}' : given[1]); const t = full.length > 262_144; if (e.value.truncated !== t || (t ? !full.startsWith(b(e.value)) || b(e.value).length !== 262_144 : b(e.value) !== full)) bad.push("value text"); }
      if (report.result) { const full = kvJson(out); const t = full.length > 262_144; if (e.result.truncated !== t || (t ? !full.startsWith(b(e.result)) || b(e.result).length !== 262_144 : JSON.stringify(JSON.parse(b(e.result))) !== full)) bad.push("result text"); }
    } else {
      const text = { tagged: "select * from t where a = $1 and b = $2", none: "select 1", raw: "select $1", values: "select $1", unsafe: "select $1", dates: "insert into t values ($1, $2, $3)", executed: "select $1", twice: "select $1" }[how];
      const params = { tagged: [1, "✓"], none: [], raw: [1], values: [1], unsafe: [5], dates: ["1970-01-01T00:00:00.000Z", null, { a: 1 }], executed: [2], twice: [3] }[how];
      if (e.kind !== "postgres" || e.queryText !== text || JSON.stringify(JSON.parse(e.params)) !== JSON.stringify(params) || e.rowMode !== ({ raw: "raw", values: "values" }[how] ?? "")) bad.push(`reported ${JSON.stringify(e).slice(0, 300)}`);
      if ((e.result !== undefined) !== report.result || (e.errorJson !== undefined) && !report.failed) bad.push("outcome");
      if (out === "error" || out === "pgError") { const j = JSON.parse(e.errorJson); if (j.message !== err.message || j.code !== err.code || (out === "pgError" && (j.name !== "PostgresError" || j.detail !== err.detail))) bad.push(`error ${e.errorJson}`); }
      if (report.result) { const one = (x) => ({ rows: [...x], count: x.count ?? null, command: x.command ?? null, columns: x.columns ?? [], statement: x.statement ?? null }); const full = JSON.stringify(out === "several" ? value.map(one) : one(value)); const t = full.length > 262_144; if (e.result.truncated !== t || (t ? b(e.result).length !== 262_144 || !full.startsWith(b(e.result)) : b(e.result) !== full)) bad.push(`result ${b(e.result).slice(0, 200)}`); }
    }
  },
  observe: (s, to) => (to.phase === "new" ? null : s.bad),
  expect: (m) => (m.phase === "new" ? null : []),
  async teardown(s) { s.who.r1?.finish?.(); await gather(s); s.w.close(); },
});
const set = (...a) => `{${a.map((x) => `"${x}"`).join(", ")}}`;
const INV = { invariants: ["OthersAreNot", "OneRequestEach"], properties: ["OutcomesLast"] };
export default {
  property: "E08",
  assumptions: ["bindings, key-value namespaces and postgres.js queries are doubles with workerd's and postgres.js' prototypes; the recorder's coverage module is absent from the sources and stubbed"],
  models: [
    { name: "calls", spec: "EdgeCalls", driver: async () => callsDriver(await loadShim()),
      runs: ({ tier }) => {
        const t = tier === "thorough";
        return [
          { name: "mixed", cfg: { constants: { Sides: set("url", "binding", "custom"), Makers: set("r1"), Resources: set("service", "second", "alias", "assets", "skipped", "own", "stub", "kv", "kvsub", "kvskipped", "pg", "sidecar"), MaxCalls: 2, MaxLen: 6 }, ...INV }, maxPaths: t ? 12000 : 1200, walks: t ? 2000 : 100 },
          { name: "bare", cfg: { constants: { Sides: set("bare"), Makers: set("r1"), Resources: set("assets", "skipped", "own", "stub", "kvskipped", "pg"), MaxCalls: 2, MaxLen: 6 }, ...INV }, maxPaths: 500 },
          { name: "between", cfg: { constants: { Sides: set("url", "binding"), Makers: set("r1", "r2", "replay", "outside"), Resources: set("service", "kv", "pg"), MaxCalls: 2, MaxLen: t ? 8 : 6 }, ...INV }, maxPaths: t ? 20000 : 1400, walks: t ? 3000 : 300 },
          { name: "late", cfg: { constants: { Sides: set("url"), Makers: set("r1", "r2"), Resources: set("service", "kv", "pg"), MaxCalls: 3, MaxLen: t ? 9 : 7 }, ...INV }, maxPaths: t ? 20000 : 900, walks: t ? 3000 : 300 },
        ];
      } },
    { name: "data", spec: "EdgeCallData", driver: async () => dataDriver(await loadShim()),
      runs: () => [{ name: "all", cfg: { constants: { Fetches: set("text", "init", "url", "request", "requestInit", "head", "stream", "bytes", "invalid"),
        KvCalls: set(...Object.keys(KV), "putBytes", "putStream"), KvResults: set("text", "null", "undefined", "object", "map", "list", "long", "bytes", "view", "stream", "number", "false", "emptyText", "cyclic"),
        Queries: set("tagged", "none", "raw", "values", "unsafe", "dates", "executed", "twice", "describe", "cursor", "forEach", "stream", "fragment"), Rows: set("rows", "none", "update", "bigint", "cyclicRow", "several", "arrays", "long") }, invariants: ["OutcomeKnown"] }, maxPaths: 2000 }] },
  ],
};
