import { loadSidecar, EdgeWorld, event, tagsOf } from "../harness/edge-sidecar.mjs";

const INV = ["TypeOK", "NoLoss", "NoStranding", "ExactlyOnce", "AtMostPerCrash", "InOrder", "OneSession", "FreshNumbers", "OverwriteKeeps", "FlushComplete"];

/** The runtime runs an alarm again that failed. */
const rearm = (s, o) => { if (s.alarm?.state === "error") { s.alarm = undefined; o.storage.alarmAt ??= o.storage.entries.size ? Date.now() : null; } };
/** unit: how many real reports one batch of the model stands for; big: reports that need several storage values. */
const driver = (mod, { unit = 1, big = false } = {}) => ({
  async setup() {
    const w = new EdgeWorld(mod);
    return { w, flushes: new Map(), crashed: 0 };
  },
  async step(s, act) {
    const { w } = s;
    const o = w.object();
    const report = async (b) => {
      const out = [];
      for (let i = 0; i < unit; i++) {
        const evs = big ? [0, 1, 2].map((j) => event(`${b}.${i}.${j}`, { requestId: `r${b}`, url: `https://app.example/${"p".repeat(800_000)}` }))
          : [event(`${b}.${i}.0`), event(`${b}.${i}.1`)];
        out.push(w.post(evs));
        await w.settle();
      }
      return out;
    };
    if (act.n === "append") {
      for (const r of await report(act.b)) {
        if (r.state !== "ok") return `report ${act.b} was not answered (${r.state})`;
        if (r.value.status !== 204) return `report ${act.b} was answered ${r.value.status}`;
      }
    } else if (act.n === "appendCrash") {
      o.storage.freezeAt = act.at === "arm" ? "setAlarm" : "put";
      const alarmRunning = s.alarm?.state === "pending";
      const r = w.post([event(`${act.b}.0.0`), event(`${act.b}.0.1`)]);
      await w.settle();
      if (r.state === "ok" && r.value.status === 204) return `report ${act.b} was acknowledged before it was durable`;
      s.flushes.clear(); s.alarm = undefined;
      w.crash("recorder-0", { alarmRunning });
    } else if (act.n === "alarm") {
      s.alarm = w.fireAlarm();
      await w.settle();
    } else if (act.n === "flush") {
      s.flushes.set(act.f, w.flush());
      await w.settle();
    } else if (act.n === "uploaded") {
      const u = w.take();
      if (!u) return "no upload is under way";
      u.ok();
      await w.settle();
    } else if (act.n === "faultRead") {
      o.storage.failNext = "list";
      if (act.k === "alarm") { s.alarm = w.fireAlarm(); await w.settle(); if (s.alarm.state === "ok" && o.storage.alarmAt === null) return "an alarm that failed is not run again"; rearm(s, o); }
      else { s.flushes.set(act.f, w.flush()); await w.settle(); }
      if (o.storage.failNext) { o.storage.failNext = undefined; return "what is stored is not read"; }
    } else if (act.n === "fault") {
      const u = w.take();
      if (!u) return "no upload is under way";
      o.storage.failNext = act.at === "commit" ? "put" : "delete";
      u.ok(); await w.settle();
      if (o.storage.failNext) { o.storage.failNext = undefined; return `no ${act.at}`; }
      rearm(s, o);
    } else if (act.n === "crash") {
      const alarmRunning = s.alarm?.state === "pending";
      const u = w.take();
      if (!u) return "no upload is under way";
      if (act.at === "upload") { if (act.written) u.silentOk(); }
      else {
        o.storage.freezeAt = act.at === "commit" ? "put" : "delete";
        u.ok();
        await w.settle();
      }
      s.flushes.clear(); s.alarm = undefined;
      w.crash("recorder-0", { alarmRunning });
      await w.settle();
    } else if (act.n === "evict") {
      w.crash("recorder-0");
    }
    if (s.alarm && s.alarm.state === "error") return `the alarm handler failed: ${s.alarm.error}`;
    return undefined;
  },
  observe(s) {
    const { w } = s;
    const ids = [...new Set(w.started.map((k) => k.split("/")[1]))];
    const chunks = w.log.filter((l) => l.ok && /\/\d+$/.test(l.key));
    return {
      chunks: chunks.map((l) => [Number(l.key.split("/").pop()), tagsOf(l.body), ids.indexOf(l.key.split("/")[1])]),
      metas: w.log.filter((l) => l.ok && l.key.endsWith("/metadata.json")).length,
      others: w.log.filter((l) => !/\/(\d+|metadata\.json)$/.test(l.key)).map((l) => l.key),
      pendingUpload: w.uploads.map((u) => u.key.split("/").pop().replace(/^\d+$/, "chunk")),
      flushed: [...s.flushes].filter(([, r]) => r.state === "ok" && r.value.status === 204).map(([f]) => f).sort(),
      failed: [...s.flushes].filter(([, r]) => r.state === "error" || (r.state === "ok" && r.value.status !== 204)).length,
    };
  },
  expect(m, _act, s) {
    const tags = (bs) => bs.flatMap((b) => (Array.from({ length: unit }, (_, i) => (big ? [0, 1, 2] : [0, 1]).map((j) => `${b}.${i}.${j}`))).flat());
    return {
      chunks: m.bucket.map(([i, bs, se]) => [i, tags(bs), se - 1]),
      metas: m.metas, others: [],
      pendingUpload: m.stage === "none" ? [] : [m.stage === "meta" ? "metadata.json" : "chunk"],
      flushed: m.answered.filter((f) => s.flushes.has(f)).sort(),
      failed: m.failed.filter((f) => s.flushes.has(f)).length,
    };
  },
  /** Everything durable is uploaded by the alarms alone; a flush afterwards finds nothing left behind. */
  async finish(s, m) {
    const { w } = s;
    const drain = async () => { for (let i = 0; i < 30 && w.uploads.length; i++) { w.take().ok(); await w.settle(); } };
    await drain();
    for (let i = 0; i < 20 && w.object().storage.alarmAt !== null; i++) { w.fireAlarm(); await w.settle(); await drain(); }
    const tags = () => new Set(w.log.filter((l) => l.ok).flatMap((l) => tagsOf(l.body)));
    const byAlarm = tags();
    for (const b of m.acked) for (let i = 0; i < unit; i++) if (!byAlarm.has(`${b}.${i}.0`) || !byAlarm.has(`${b}.${i}.1`)) return `acknowledged batch ${b} was never uploaded`;
    w.flush(); await w.settle(); await drain();
    if (tags().size !== byAlarm.size) return "a stored batch was stranded: only a later flush uploaded it";
    // fresh reports are uploaded after the ones before, under a fresh chunk number
    const before = w.log.length;
    w.post([event("fresh")]); await w.settle();
    w.fireAlarm(); await w.settle(); await drain();
    const last = w.log[w.log.length - 1];
    if (w.log.length === before || !tagsOf(last.body).includes("fresh")) return "a later batch is not uploaded";
    if (m.ncrash + m.nfault === 0 && w.log.slice(0, -1).some((l) => l.key === last.key)) return "a chunk number was used twice";
    return undefined;
  },
  async teardown(s) { s.w.close(); },
});

const consts = (o) => ({ MaxBatches: 3, Cap: 99, MaxFlush: 1, MaxCrash: 1, MaxFault: 0, MaxLen: 12, ...o });
export default {
  property: "S01",
  assumptions: [
    "the Durable Object runtime delivers no event to an object while one of its storage operations is in progress (input gates), runs one alarm at a time, and runs an alarm again that did not finish",
    "multi-key puts are atomic; object-storage writes are either applied or not",
  ],
  models: [
    {
      name: "crash", spec: "EdgeUpload",
      driver: async () => driver((await loadSidecar())()),
      runs: ({ tier }) => [
        { name: "crashes", cfg: { constants: consts({ MaxBatches: tier === "thorough" ? 4 : 3, MaxFlush: 1, MaxCrash: tier === "thorough" ? 2 : 1 }), invariants: INV }, maxPaths: tier === "thorough" ? 12000 : 1200, walks: tier === "thorough" ? 3000 : 200, maxLen: 14 },
        { name: "faults", cfg: { constants: consts({ MaxBatches: 3, MaxFlush: 1, MaxCrash: 0, MaxFault: tier === "thorough" ? 3 : 2, MaxLen: tier === "thorough" ? 14 : 12 }), invariants: INV }, maxPaths: tier === "thorough" ? 12000 : 1200, walks: tier === "thorough" ? 3000 : 200, maxLen: 14 },
        { name: "liveness", emit: false, cfg: { spec: "Fair", constants: consts({ MaxBatches: 3, MaxFault: 1, MaxLen: 40 }), invariants: INV, properties: ["Drained"], emit: false } },
      ],
    },
    {
      name: "capped", spec: "EdgeUpload",
      driver: async () => driver((await loadSidecar())(), { unit: 32 }),
      runs: ({ tier }) => [
        { name: "capped", cfg: { constants: consts({ MaxBatches: tier === "thorough" ? 6 : 5, Cap: 2, MaxFlush: 2, MaxCrash: 0, MaxLen: tier === "thorough" ? 18 : 14 }), invariants: INV }, maxPaths: tier === "thorough" ? 2500 : 150, walks: tier === "thorough" ? 300 : 30, maxLen: 18 },
      ],
    },
    {
      name: "large", spec: "EdgeUpload",
      driver: async () => driver((await loadSidecar())(), { big: true }),
      runs: ({ tier }) => [
        { name: "large", cfg: { constants: consts({ MaxBatches: 2, MaxFlush: 1, MaxCrash: 0, MaxLen: 8 }), invariants: INV }, maxPaths: tier === "thorough" ? 100 : 8 },
      ],
    },
  ],
};
