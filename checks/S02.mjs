import { loadSidecar, EdgeWorld, event, tagsOf } from "../harness/edge-sidecar.mjs";

const ANSWERS = { ok: (u) => u.ok(), 500: (u) => u.fail(500), 403: (u) => u.fail(403), net: (u) => u.fail() };

const driver = (mod) => ({
  async setup() {
    const w = new EdgeWorld(mod);
    return { w, next: 0, waiting: [], uploading: [], trash: new Set(), sessions: [], starts: {}, nlog: 0 };
  },
  async step(s, act, to, from) {
    const { w } = s;
    const report = async () => {
      const tag = `b${s.next++}`;
      const r = w.post([event(tag), event(tag)]);
      await w.settle();
      if (r.state !== "ok" || r.value.status !== 204) return "report not acknowledged";
      s.waiting.push(tag);
    };
    s.drainedTags = undefined;
    if (act.n === "preload") {
      for (let i = 0; i < act.k; i++) {
        await report();
        w.fireAlarm("recorder-0", { jump: false });
        await w.settle();
        while (w.uploads.length) { w.take().ok(); await w.settle(); }
        s.waiting = [];
      }
      const n = w.log.filter((l) => /\/\d+$/.test(l.key)).length;
      if (n !== act.k) return `preloading: ${n} chunks for ${act.k} flushes`;
    } else if (act.n === "report") { const e = await report(); if (e) return e; }
    else if (act.n === "advance") w.clock.now += act.d;
    else if (act.n === "alarm") {
      s.uploading = s.waiting; s.waiting = [];
      const o = w.object();
      if (o.storage.alarmAt === null) return "no alarm is armed although reports are waiting";
      s.alarm = w.fireAlarm("recorder-0", { jump: false });
      await w.settle();
    } else if (act.n === "answer") {
      const u = w.take();
      if (!u) return "no upload under way";
      ANSWERS[act.kind](u);
      await w.settle();
    }
    if (s.alarm?.state === "error") return `alarm failed: ${s.alarm.error}`;
    for (const k of w.started) { const id = k.split("/")[1]; if (!s.sessions.includes(id)) { s.sessions.push(id); s.starts[id] = w.clock.now; } }
    // discarded reports must never be uploaded
    if (from.stage !== "none" && to.stage === "none") { if (to.s.ab) { s.uploading = []; s.waiting = []; } else s.uploading = []; }
    if (act.n === "alarm" && to.stage === "none") { s.uploading = []; }
  },
  observe(s) {
    const { w } = s;
    const u = w.uploads[0];
    return {
      n: w.uploads.length,
      what: u ? u.key.split("/").pop() : "none",
      prefix: u ? u.key.split("/")[0] : "none",
      session: u ? s.sessions.indexOf(u.key.split("/")[1]) + 1 : 0,
      tags: u && /\/\d+$/.test(u.key) ? tagsOf(u.body) : [],
      token: u && /\/\d+$/.test(u.key) ? u.body.backendRecorderToken : "",
      meta: u && u.key.endsWith("metadata.json") ? { id: u.body.config?.sessionId === u.key.split("/")[1], start: u.body.config?.startTime === new Date(s.starts[u.key.split("/")[1]]).toISOString() && u.key.split("/")[1].startsWith(`BE_${u.body.config?.startTime}_`), max: [u.body.config?.maxChunks, u.body.config?.maxSessionTimeMs], project: u.body.projectID, name: u.body.meticulousProjectName } : {},
      marker: u && u.key.endsWith("abandoned.json") ? u.body : {},
      finished: s.alarm ? s.alarm.state : "none",
    };
  },
  expect(m, act, s) {
    const st = m.stage;
    return {
      n: st === "none" ? 0 : 1,
      what: st === "none" ? "none" : st === "meta" ? "metadata.json" : st === "marker" ? "abandoned.json" : String(m.w.idx + 1),
      prefix: st === "none" ? "none" : "tok_01234567",
      session: st === "none" ? 0 : m.w.no,
      tags: st === "chunk" ? s.uploading.flatMap((t) => [t, t]) : [],
      token: st === "chunk" ? "tok_0123456789abcdef" : "",
      meta: st === "meta" ? { id: true, start: true, max: [30, 600000], project: "tok_0123456789abcdef", name: "my-app" } : {},
      marker: st === "marker" ? { abandoned: true, reason: m.w.meta ? "consecutive_failures" : "metadata_upload_failed" } : {},
      finished: s.alarm ? (st === "none" ? "ok" : "pending") : "none",
    };
  },
  async teardown(s) { s.w.close(); },
});

const INV = ["TypeOK", "MetadataFirst", "ChunkBound"];
const PROP = ["NoUploadWhileCooling", "FreshAfterAbandon", "NoOldChunk", "Contiguous", "SuccessResets", "AbandonedOnlyByFailures"];
const consts = (o) => ({ MaxChunks: 30, SessionMs: 600000, CooldownMs: 300000, MaxFails: 3, Deltas: "{1, 299999, 300000}", Preloads: "{28}", MaxSessions: 4, MaxLen: 11, MaxPend: 1, FailKinds: '{"500"}', ...o });
export default {
  property: "S02",
  assumptions: ["uploads are answered one at a time; the time of a drain is the time it started"],
  models: [{
    name: "life", spec: "EdgeSession",
    driver: async () => driver((await loadSidecar())()),
    runs: ({ tier }) => [
      { name: "limits", cfg: { constants: consts({ MaxLen: tier === "thorough" ? 18 : 13 }), invariants: INV, properties: PROP }, maxPaths: tier === "thorough" ? 30000 : 2500, walks: tier === "thorough" ? 5000 : 800, maxLen: 30 },
      { name: "failures", cfg: { constants: consts({ Deltas: "{299999, 300000}", Preloads: "{29}", MaxLen: tier === "thorough" ? 16 : 11, MaxPend: 2, FailKinds: '{"500", "403", "net"}' }), invariants: INV, properties: PROP }, maxPaths: tier === "thorough" ? 20000 : 1500, walks: 300, maxLen: 24 },
      { name: "aged", cfg: { constants: consts({ Deltas: "{200000}", Preloads: "{1}", MaxSessions: 3, MaxLen: 22 }), invariants: INV, properties: PROP }, maxPaths: tier === "thorough" ? 20000 : 1500, walks: 300, maxLen: 40 },
    ],
  }],
};
