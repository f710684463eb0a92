import { bundle } from "../lib/bundle.mjs";
import { FakeClock, settle } from "../lib/clock.mjs";
import { track, deferred } from "../lib/util.mjs";
const set = (...a) => `{${a.map((x) => (typeof x === "string" ? `"${x}"` : typeof x === "boolean" ? String(x).toUpperCase() : x)).join(", ")}}`;

const sanitizer = () => null; const mw = { transform: (x) => x };
const OPTS = {
  plain: { recordingToken: "tok" },
  project: { projectId: "proj", recordingToken: undefined },
  zeros: { recordingToken: "tok", uploadIntervalMs: 0, maxPayloadSize: 0, commitHash: "", snapshotLinkedStylesheets: false, forceRecording: false, isProduction: false, disableErrorReporting: false, disableTrackerId: false, responseSanitizers: [], middleware: [] },
  full: { recordingToken: "tok", projectId: "proj", uploadIntervalMs: 5, maxPayloadSize: 9, commitHash: "c0", snapshotLinkedStylesheets: true, forceRecording: true, isProduction: true, disableErrorReporting: true, disableTrackerId: true, responseSanitizers: [sanitizer], middleware: [mw], nonce: "n0", version: "2.1", integrity: "sha-1", snippetsBaseUrl: "https://own.example/snippets/" },
  versioned: { recordingToken: "tok", version: "2.1" },
  unversioned: { recordingToken: "tok", integrity: "sha-1" }, badurl: { recordingToken: "tok", snippetsBaseUrl: "no url" },
};
const G = "METICULOUS_";
const SET = {
  plain: { RECORDING_TOKEN: "tok" }, project: { RECORDING_TOKEN: "proj" }, versioned: { RECORDING_TOKEN: "tok" },
  zeros: { RECORDING_TOKEN: "tok", UPLOAD_INTERVAL_MS: 0, MAX_PAYLOAD_SIZE: 0, APP_COMMIT_HASH: "", SNAPSHOT_LINKED_STYLESHEETS: false, FORCE_RECORDING: false, IS_PRODUCTION_ENVIRONMENT: false, DISABLE_ERROR_REPORTING: false, DISABLE_TRACKER_ID: false },
  full: { RECORDING_TOKEN: "tok", UPLOAD_INTERVAL_MS: 5, MAX_PAYLOAD_SIZE: 9, APP_COMMIT_HASH: "c0", SNAPSHOT_LINKED_STYLESHEETS: true, FORCE_RECORDING: true, IS_PRODUCTION_ENVIRONMENT: true, DISABLE_ERROR_REPORTING: true, DISABLE_TRACKER_ID: true, NETWORK_RESPONSE_SANITIZERS: "sanitizers", RECORDER_MIDDLEWARE_V1: "middleware" },
};
const SCRIPT = { plain: "https://snippet.meticulous.ai/v1/meticulous-manual-init.js", full: "https://own.example/snippets/record/v/2.1/meticulous-manual-init.js integrity=sha-1 crossOrigin=anonymous nonce=n0", versioned: "https://snippet.meticulous.ai/record/v/2.1/meticulous-manual-init.js" };
const UNIT = 500;
const driver = (inst) => ({
  async setup(init) {
    const s = { scripts: [], clock: new FakeClock().install(), saved: {}, inits: 0, disposes: 0, stopped: 0, opt: init.opt, bad: [], active: false, initedAt: [] };
    const w = { clearTimeout: (h) => clearTimeout(h), setTimeout: (...a) => setTimeout(...a), Meticulous: init.page === "test" ? { isRunningAsTest: true } : init.opt === "zeros" ? { isRunningAsTest: false } : undefined };
    const add = (x) => { if (x.tag === "script") s.scripts.push(x); return x; };
    const doc = { createElement: (tag) => ({ tag, attrs: {}, setAttribute(k, v) { this[k] = v; }, addEventListener(e, f) { this[`on${e}`] = f; } }), head: init.page === "headless" ? null : { appendChild: add, append: add, prepend: add, insertBefore: add } };
    for (const [k, v] of Object.entries({ window: w, document: doc })) { s.saved[k] = Object.getOwnPropertyDescriptor(globalThis, k); Object.defineProperty(globalThis, k, { value: v, configurable: true, writable: true }); }
    s.w = w; s.console = { error: console.error, debug: console.debug }; console.error = console.debug = () => {};
    s.mod = inst({}); s.versioned = init.limit === 1; // that the recorder has a version of its own is tried with one limit
    s.limit = init.limit === 0 ? { maxMsToBlockFor: 0 } : init.limit === 4 ? {} : { maxMsToBlockFor: init.limit * UNIT };
    return s;
  },
  api(s) { return (s.w.__meticulous ??= {}); },
  async step(s, a, to) {
    const loader = () => s.scripts.find((x) => /manual-init/.test(x.src)); const early = () => s.scripts.find((x) => /network-recorder/.test(x.src));
    if (a.n === "intercept") s.i = track(s.mod.tryInstallMeticulousIntercepts({ ...s.limit, ...(s.versioned ? { version: "2.1" } : {}) }));
    else if (a.n === "load") { const o = { ...OPTS[s.opt], ...s.limit }; const f = s.i ? s.i.value?.startRecordingSession : s.mod.tryLoadAndStartRecorder; if (!f) return "no way to start recording"; s.l = track(f(o)); }
    else if (a.n === "iloads") { const e = early(); if (!e) return "nothing is loaded"; this.api(s).earlyNetworkRecorder = { dispose: () => { s.disposes++; s.active = false; s.gone = deferred(); return s.gone.promise; } }; s.active = true; e.onload?.({}); }
    else if (a.n === "ifails") early().onerror?.({});
    else if (a.n === "loads") {
      if (a.k !== "nothing") Object.assign(this.api(s), { initialiseRecorder: () => { s.inits++; if (a.k === "throws") throw s.opt === "plain" ? "odd" : new Error("odd"); this.api(s).stopRecording = () => { s.stopped++; }; } });
      loader().onload?.({});
    } else if (a.n === "fails") loader().onerror?.({});
    else if (a.n === "tick") await s.clock.advance(UNIT);
    // disposing takes its time: it is asked for again meanwhile
    else if (a.n === "stop") { s.stops ??= []; s.stops.push(track(s.i.value.stopIntercepting())); }
    else if (a.n === "stop-recording") { const before = s.stopped; const r = track((async () => s.l.value.stopRecording())()); await settle({ rounds: 2 }); if (r.state !== "ok") return `to stop recording fails: ${r.error?.message}`; if (s.stopped - before !== (to.lres === "recorder" ? 1 : 0)) return "recording is not stopped"; }
    await settle({ rounds: 3 });
    if (a.n === "stop" && s.gone && to.stops % 2 === 0) { s.gone.resolve(); await settle({ rounds: 2 }); }
  },
  observe(s) {
    const one = (o) => (!o ? "no" : o.state === "pending" ? "loading" : o.state === "ok" ? "done" : "rejected");
    const opts = Object.fromEntries(Object.entries(s.w).filter(([k]) => k.startsWith(G)).map(([k, v]) => [k.slice(G.length), Array.isArray(v) ? (v[0] === sanitizer ? "sanitizers" : v[0] === mw ? "middleware" : "?") : v]));
    const loaded = s.scripts.filter((x) => /manual-init/.test(x.src));
    return { lph: one(s.l), iph: one(s.i), inits: s.inits, active: s.active, disposes: s.disposes, early: s.scripts.filter((x) => /network-recorder/.test(x.src)).map((x) => x.src),
      script: loaded.map((x) => [x.src, ...["integrity", "crossOrigin", "nonce"].filter((k) => x[k]).map((k) => `${k}=${x[k]}`)].join(" ")), settings: loaded.length ? JSON.stringify(opts, Object.keys(opts).sort()) : "" };
  },
  expect(st) {
    const o = SET[st.opt]; return { lph: st.lph, iph: st.iph, inits: st.inits, active: st.active, disposes: st.disposes, early: st.iscript === "none" ? [] : [`https://snippet.meticulous.ai/record/${st.limit === 1 ? "v/2.1" : "v1"}/network-recorder.bundle.js`],
      script: st.script === "none" ? [] : [SCRIPT[st.opt] ?? SCRIPT.plain], settings: st.script === "none" ? "" : JSON.stringify(o, Object.keys(o).sort()) };
  },
  async teardown(s) {
    s.gone?.resolve(); await s.clock.advance(10_000); await settle({ rounds: 3 }); s.clock.uninstall(); Object.assign(console, s.console);
    for (const [k, d] of Object.entries(s.saved)) if (d) Object.defineProperty(globalThis, k, d); else delete globalThis[k];
  },
});
const INV = { invariants: ["Bounded", "Once", "Stopped", "TestsAlone"], properties: ["NeverLate", "Settled"] };
export default {
  property: "L01",
  assumptions: ["the page is a double of window and document; scripts load, fail or stall as the driver says"],
  models: [{
    name: "loader", spec: "RecorderLoader", driver: async () => driver(await bundle("recorder-loader/src/index.ts")),
    runs: ({ tier }) => [
      { name: "loading", cfg: { constants: { Pages: set("plain", "test", "headless"), Options: set(...Object.keys(OPTS)), Limits: "{0, 1, 2, 4}", Inits: set("ok", "throws", "nothing"), Intercepts: set(false), MaxTicks: tier === "thorough" ? 7 : 5, MaxStops: 2 }, ...INV }, maxPaths: 8000, walks: 300 },
      { name: "intercepting", cfg: { constants: { Pages: set("plain", "headless"), Options: set("plain"), Limits: "{0, 1, 4}", Inits: set("ok", "throws"), Intercepts: set(true), MaxTicks: tier === "thorough" ? 8 : 5, MaxStops: tier === "thorough" ? 4 : 3 }, ...INV }, maxPaths: 10000, walks: 300 },
    ],
  }],
};
