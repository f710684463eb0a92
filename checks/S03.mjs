import { createHash } from "node:crypto";
import { loadSidecar, EdgeWorld, DurableStorage, event, tagsOf } from "../harness/edge-sidecar.mjs";

let fresh = 0;
const MAX = 8 * 1024 * 1024;
const PATHS = { events: "/v1/events", health: "/v1/health", flush: "/v1/flush", other: "/v1/other", root: "/" };
const JUNK = [null, 7, "text", {}, { kind: "inbound" }, { kind: "outbound", requestId: "x" }, { kind: "kv" }, { kind: "postgres", requestId: 1 }, { kind: "from-the-future", requestId: "q" }, [1]];

const driver = (mod) => ({
  async setup(init) {
    const env = {};
    if (init.cfg.token !== "set") env.METICULOUS_RECORDING_TOKEN = init.cfg.token === "empty" ? "" : undefined;
    if (init.cfg.binding !== "present") env.METICULOUS_SESSION = undefined;
    const w = new EdgeWorld(mod, { shards: init.cfg.shards, env });
    w.autoUpload = true;
    // objects may be unavailable; every object reports and flushes go to is known
    const ns = w.env.METICULOUS_SESSION; const s = { w, n: 0, tags: [], homes: new Map(), inLog: 0, out: undefined, fault: undefined, asked: [] };
    if (ns) w.env.METICULOUS_SESSION = { idFromName: (n) => ns.idFromName(n), get: (id) => { const o = ns.get(id); return { fetch: (r) => { const i = s.asked.push(id) - 1; const f = s.fault?.(i);
      return f === "busy" ? Promise.resolve(new Response("overloaded", { status: 503 })) : f === "broken" ? Promise.resolve(new Response(null, { status: 500 })) : f === "throws" ? Promise.reject(new Error("the object was reset")) : o.fetch(r); } }; } };
    // every object is created through this hook, so that storage can be made to fail before its first use
    return s;
  },
  async step(s, act, to) {
    const { w } = s;
    s.health = "none"; s.problem = undefined; s.flushedNow = 0;
    if (act.n === "flush") {
      s.asked = []; const shards = { 3: 3, 5: 5 }[to.cfg.shards] ?? 1;
      s.fault = act.k === "works" ? undefined : (i) => (act.k === "all" || i === (act.k === "first" ? 0 : shards - 1) ? ["busy", "broken", "throws"][s.n % 3] : undefined);
      const r = w.flush();
      await w.settle(); await w.settle(); s.fault = undefined;
      s.status = r.state === "ok" ? r.value.status : r.state === "error" && act.k !== "works" ? 500 : r.state;
      if (act.k !== "works") return;
      const up = w.log.slice(s.inLog).flatMap((l) => tagsOf(l.body)).filter((t) => t !== undefined); // (spans of junk events carry no tag)
      s.inLog = w.log.length;
      for (const t of up) if (!s.tags.includes(t)) return `unexpected or repeated event ${t} uploaded`;
      if (s.status === 204) {
        // each report had one good event (and possibly junk, which cannot be uploaded)
        if ([...up].sort().join() !== [...s.tags].sort().join()) return `flush uploaded ${JSON.stringify(up)} of ${JSON.stringify(s.tags)}`;
        s.flushedNow = up.length; s.tags = [];
      }
      return;
    }
    const r = act.r;
    const tag = `t${s.n++}`;
    const id = r.id === "fresh" ? createHash("sha1").update(`${r.id} ${++fresh}`).digest("hex").slice(0, 4 + (fresh % 30)) : r.id;
    const good = event(tag, { requestId: id });
    const body = {
      good: { raw: JSON.stringify({ events: [good] }) }, junk: { raw: JSON.stringify({ events: [good, ...JUNK] }) },
      junkFirst: { raw: JSON.stringify({ events: [{ requestId: id }, ...JUNK, good] }) },
      empty: { raw: JSON.stringify({ events: [] }) }, noJson: { raw: "{" }, noArray: { raw: JSON.stringify({ events: { 0: good, length: 1 } }) },
      object: { raw: JSON.stringify({ event: good }) }, string: { raw: JSON.stringify({ events: JSON.stringify([good]) }) },
    }[r.body];
    DurableStorage.failAll = r.store === "fails";
    const before = new Map([...w.objects].map(([k, o]) => [k, o.storage.entries.size]));
    const len = { small: undefined, exact: MAX, over: MAX + 1 }[r.length];
    s.fault = ["busy", "broken", "throws"].includes(r.store) ? () => r.store : undefined;
    const res = w.post([], { ...body, path: PATHS[r.path], method: r.method, length: len, headers: { "x-meticulous-sidecar-protocol-version": r.version === "none" ? undefined : r.version } });
    await w.settle();
    DurableStorage.failAll = false; s.fault = undefined;
    s.status = res.state === "ok" ? res.value.status : r.store === "throws" && res.state === "error" ? 500 : `${res.state}: ${res.error}`;
    if (r.path === "health" && r.method === "GET" && res.state === "ok") { const j = await res.value.json(); s.health = String(j.configured); if (j.ok !== true) return "health does not answer ok"; }
    const changed = [...w.objects].filter(([k, o]) => o.storage.entries.size !== (before.get(k) ?? 0)).map(([k]) => k);
    const isNew = s.status === 204 && r.body !== "empty";
    if (isNew) {
      if (changed.length !== 1) return `the report went to ${changed.length} objects`;
      const home = s.homes.get(id);
      if (home !== undefined && home !== changed[0]) return `request ${r.id} moved from ${home} to ${changed[0]}`;
      s.homes.set(id, changed[0]);
      s.tags.push(tag);
      // the object is evicted: what was acknowledged must be in its storage
      w.crash(changed[0]);
    } else if (changed.length) return `a report answered ${s.status} changed storage`;
  },
  observe(s) { return { status: s.status ?? 0, health: s.health ?? "none", flushed: s.flushedNow ?? 0 }; },
  expect(m) { return { status: m.resp, health: m.health, flushed: m.flushed }; },
  async teardown(s) { s.w.close(); },
});

const set = (...a) => `{${a.map((x) => (typeof x === "number" ? x : `"${x}"`)).join(", ")}}`;
const table = { Tokens: set("set", "empty", "unset"), Bindings: set("present", "missing"), ShardCounts: set("3"), Methods: set("POST", "GET", "PUT"), Paths: set("events", "health", "flush", "other", "root"), Versions: set("2", "1", "none", "02"), Lengths: set("small", "exact", "over"), Bodies: set("good", "empty", "noJson", "noArray", "object", "string", "junk", "junkFirst"), Stores: set("works", "fails"), Ids: set("r1"), Flushes: set("works", "first", "last", "all"), MaxLen: 1, Full: "TRUE" };
const INV = { invariants: ["NothingWithoutConfiguration"], properties: ["AckOnlyStored", "ErrorStoresNothing"] };
export default {
  property: "S03",
  assumptions: ["requests carry a truthful content-length, as the Workers runtime sees to"],
  models: [{
    name: "requests", spec: "EdgeIngest",
    driver: async () => driver((await loadSidecar())()),
    runs: ({ tier }) => [
      { name: "table", cfg: { constants: table, ...INV }, maxPaths: tier === "thorough" ? undefined : 6000 },
      { name: "sequences", cfg: { constants: { ...table, Tokens: set("set"), Bindings: set("present"), ShardCounts: set("1", "3", "0", "junk", "5"), Methods: set("POST"), Paths: set("events"), Versions: set("2"), Lengths: set("small"), Bodies: set("good", "junk", "junkFirst"), Ids: set("r1", "fresh"), Stores: set("works", "fails", "busy", "broken", "throws"), MaxLen: 3 }, ...INV }, maxPaths: tier === "thorough" ? 60000 : 2500 },
    ],
  }],
};
