import vm from "node:vm";
import { loadShim, RecorderWorld, RECORD } from "../harness/edge-recorder.mjs";
import { deferred, track } from "../lib/util.mjs";

const ANCHOR = 1_785_230_474_662, UNANCHORED = Date.UTC(2026, 4, 13);
// the app, compiled under different names and at different lines: two builds of one program
const app = (file, shift) => new vm.Script(`${"\n".repeat(shift)}(() => {
  const fill = { random: () => [Math.random, (x) => x], uuid: () => [crypto.randomUUID, (x) => x],
    bytes: () => { const a = new Uint8Array(8); return [crypto.getRandomValues, () => Array.from(a), a]; },
    view: () => { const a = new Uint8Array(24).fill(7); const v = a.subarray(8, 16); return [crypto.getRandomValues, (r) => (r === v && a.slice(0, 8).every((x) => x === 7) && a.slice(16).every((x) => x === 7) ? Array.from(v) : "filled outside its view"), v]; },
    big: () => { const a = new BigUint64Array(2); return [crypto.getRandomValues, () => Array.from(a, String), a]; } };
  // the call sites: siteF and siteG
  const siteF = (fn, self, arg) => fn.call(self, arg);
  const siteG = (fn, self, arg) => fn.call(self, arg);
  const routeA = (s, fn, self, arg) => s(fn, self, arg);
  const routeC = (s, fn, self, arg) => s(fn, self, arg);
  const routeB = (s, fn, self, arg) => s(fn, self, arg);
  const draw = ([s, r], kind, n) => { let v; for (let i = 0; i < n; i++) { const [fn, get, arg] = fill[kind](); v = get((r === "a" ? routeA : r === "b" ? routeB : routeC)(s === "f" ? siteF : siteG, fn, kind === "random" ? Math : crypto, arg)); } return v; };
  const read = {
    now: () => Date.now(), newDate: () => new Date().getTime(), text: () => Date(), textArgs: () => Date(5), plus: () => +new Date(), iso: () => new Date().toISOString(),
    reflect: () => Reflect.construct(Date, []).getTime(), detached: () => { const { now } = Date; return now(); },
    subclass: () => { class Stamp extends Date { constructor(...a) { super(...a); } plus(n) { return new Stamp(this.getTime() + n); } } const d = new Stamp(); return d instanceof Stamp && typeof d.plus === "function" && d.plus(5).getTime() - d.getTime() === 5 && d instanceof Date ? d.getTime() : "not an instance of its class"; },
    explicit: () => [new Date(5).getTime(), new Date(2020, 1, 3, 4, 5).getMonth(), new Date("2021-02-03T04:05:06.007Z").toISOString(), Date.UTC(2020, 1), Date.parse("1970-01-01T00:00:01Z"), new Date(new Date(9)).getTime(), new Date(NaN).getTime(), new Date(undefined).getTime(), new Date(5) instanceof Date, Object.prototype.toString.call(new Date()), new Date().constructor === Date, typeof Date()].map(String),
  };
  const spin = () => { const until = Date.now() + 5; let n = 0; while (Date.now() < until) if (++n > 200000) return "endless"; return "ended"; };
  return { draw, read: (h) => read[h](), spin };
})()`, { filename: file }).runInThisContext();

const driver = (inst) => {
  const values = new Map(), meanings = new Map(); // abstract draw <-> value, over all behaviours
  const builds = [app("/srv/base/worker.js", 0), app("/home/ci/head/app/_worker.mjs", 37)];
  return {
    observeInit: false,
    async setup() {
      const s = { calls: 0 };
      const w = s.w = new RecorderWorld(inst, { native: () => {
        // recognisable native randomness
        Math.random = () => { s.last = 0.5 + ++s.calls * 1e-9; return s.last; };
        Object.defineProperty(globalThis.crypto, "randomUUID", { configurable: true, writable: true, value: () => { s.last = `native-${++s.calls}`; return s.last; } });
        Object.defineProperty(globalThis.crypto, "getRandomValues", { configurable: true, writable: true, value: (a) => { s.calls++; const b = new Uint8Array(a.buffer, a.byteOffset, a.byteLength); b.fill(s.calls & 255); s.last = a; return a; } });
      } });
      s.start = w.clock.now;
      w.handlers.push((c) => { if (c.url.endsWith("/v1/events")) { c.answer(new Response(null, { status: 204 })); return true; } },
        (c) => { const u = new URL(c.url); if (u.pathname === "/v1/replay/session") { c.answer(Response.json({ found: true, ...{ sa: { clockAnchorMs: ANCHOR }, sz: { clockAnchorMs: 0 } }[u.searchParams.get("sessionId")] })); return true; } });
      s.ctx = {};
      const h = w.mod.withMeticulous({ fetch: (req) => {
        const ctx = s.ctx[req.headers.get("x-ctx")] = { cmds: [], wake: deferred() };
        const loop = async () => { for (;;) { await ctx.wake.promise; ctx.wake = deferred(); for (const c of ctx.cmds.splice(0)) c(); } };
        void loop();
        return new Promise(() => {});
      } });
      const go = async (name, headers, env) => { track(h.fetch(new Request("https://app.example/", { headers: { "x-ctx": name, ...headers } }), env, w.ctx)); await w.settle(); if (!s.ctx[name]) throw new Error("not invoked"); };
      const rep = (session, replay) => ({ "x-meticulous-backend-replay-sidecar-url": "http://127.0.0.1:9670", "x-meticulous-session-id": session, "x-meticulous-replay-id": replay });
      await go("rec", {}, { METICULOUS_SIDECAR_URL: RECORD });
      await go("A1", rep("sa", "r1"), {}); await go("B", rep("sb", "r3"), { METICULOUS_SIDECAR_URL: RECORD }); await go("A2", rep("sa", "r2"), {}); await go("off", {}, {}); await go("Z", rep("sz", "r4"), {});
      return s;
    },
    async step(s, act) {
      const { w } = s;
      if (act.n === "tick") await w.clock.advance(1000);
      else {
        const build = builds[act.ctx === "A2" ? 1 : 0];
        const f = () => { s.before = s.calls; try { s.got = act.n === "read" ? build.read(act.how) : act.n === "spin" ? build.spin() : build.draw(act.path, act.kind, act.times); } catch (e) { s.got = `threw ${e && e.stack}`; } s.native = s.calls - s.before; s.nativeLast = s.last; };
        if (act.ctx === "plain") f(); else { s.ctx[act.ctx].cmds.push(f); s.ctx[act.ctx].wake.resolve(); await w.settle(); }
      }
      await w.clock.advance(0);
    },
    observe(s, m, act) {
      if (act.n === "tick") return null;
      if (act.n === "draw") {
        if (act.v === "native") {
          const flat = (x) => (ArrayBuffer.isView(x) ? Array.from(x, (y) => (typeof y === "bigint" ? String(y) : y)) : x);
          return { calls: s.native, same: JSON.stringify(flat(s.nativeLast)) === JSON.stringify(s.got) };
        }
        if (act.kind === "uuid" && !/^[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}$/.test(s.got)) return `not a uuid: ${s.got}`;
        if (act.kind === "random" && !(s.got >= 0 && s.got < 1)) return `not in range: ${s.got}`;
        if ((act.kind === "bytes" || act.kind === "view") && !(Array.isArray(s.got) && s.got.length === 8)) return `not bytes: ${s.got}`;
        const kind = act.kind === "view" ? "bytes" : act.kind;
        const k = JSON.stringify([act.v.session, act.v.id, act.v.pos, kind]), v = JSON.stringify([kind, s.got]);
        if (s.native) return "a native generator was used";
        if (values.has(k) && values.get(k) !== v) return `${k} was ${values.get(k)}, is ${v}`;
        if (meanings.has(v) && meanings.get(v) !== k) return `${v} is both ${meanings.get(v)} and ${k}`;
        values.set(k, v); meanings.set(v, k);
        return "consistent";
      }
      return s.got;
    },
    expect(m, act, s) {
      if (act.n === "tick") return null;
      if (act.n === "spin") return "ended";
      if (act.n === "draw") return act.v === "native" ? { calls: act.times, same: true } : "consistent";
      const at = { anchored: ANCHOR, epoch: 0, unanchored: UNANCHORED, real: s.start + m.t * 1000 }[act.v];
      if (act.how === "explicit") return ["5", "1", "2021-02-03T04:05:06.007Z", String(Date.UTC(2020, 1)), "1000", "9", "NaN", "NaN", "true", "[object Date]", "true", "string"];
      if (act.how === "text" || act.how === "textArgs") return new Date(at).toString();
      if (act.how === "iso") return new Date(at).toISOString();
      return at;
    },
    async teardown(s) { s.w.close(); },
  };
};

const set = (...a) => `{${a.map((x) => `"${x}"`).join(", ")}}`;
const CAP = 10_000;
const C = { Ctxs: set("A1", "A2", "B", "rec", "off", "plain"), Hows: "{}", Paths: "{}", Kinds: "{}", Bursts: "{}", MaxLen: 3, MaxCaptures: CAP };
const INV = { invariants: ["SharedHelpersDiffer", "OnlyReplays"], properties: ["Isolated"], spec: "Spec" };
const P = set("fa", "fb", "ga");
export default {
  property: "E05",
  assumptions: ["virtual time covers Date only (the code documents that timers, Intl and performance are left alone)", "two call sites that draw for the first time may be given the same values (documented)", "call stacks deeper than ten frames are not told apart"],
  models: [{
    name: "virtual", spec: "EdgeVirtual", driver: async () => driver(await loadShim()),
    runs: ({ tier }) => {
      const t = tier === "thorough";
      return [
        { name: "clock", cfg: { constants: { ...C, Ctxs: set("A1", "A2", "B", "Z", "rec", "off", "plain"), Hows: set("now", "newDate", "text", "textArgs", "plus", "iso", "reflect", "detached", "subclass", "explicit", "spin"), MaxLen: 3 }, ...INV } },
        { name: "draws", cfg: { constants: { ...C, Paths: P, Kinds: set("random"), MaxLen: t ? 5 : 4 }, ...INV }, maxPaths: t ? 20000 : 2000, walks: 100 },
        { name: "routes", cfg: { constants: { ...C, Ctxs: set("A1", "A2"), Paths: set("fa", "fb", "fc", "gb"), Kinds: set("random"), MaxLen: t ? 6 : 5 }, ...INV }, maxPaths: t ? 20000 : 1500 },
        { name: "kinds", cfg: { constants: { ...C, Ctxs: set("A1", "A2", "plain"), Paths: set("fa", "fb"), Kinds: set("random", "uuid", "bytes", "view", "big"), MaxLen: t ? 4 : 3 }, ...INV }, maxPaths: t ? 20000 : 1500 },
        { name: "long", cfg: { constants: { ...C, Ctxs: set("A1", "A2"), Paths: set("fa", "gb"), Kinds: set("random"), Bursts: `{${CAP - 1}, ${CAP}}`, MaxLen: 4 }, ...INV }, maxPaths: t ? 500 : 60 },
      ];
    },
  }],
};
