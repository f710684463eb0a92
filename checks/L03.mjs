import { bundle, VERIF_DIR } from "../lib/bundle.mjs";
import { FakeClock, settle } from "../lib/clock.mjs";
import { track } from "../lib/util.mjs";
import { Browser, COOKIE } from "../harness/browser.mjs";
const set = (...a) => `{${a.map((x) => (typeof x === "string" ? `"${x}"` : typeof x === "boolean" ? String(x).toUpperCase() : x)).join(", ")}}`;

const INSTALLED = { overrides: { "file:common/src/browser-installer.ts": `${VERIF_DIR}harness/stub-browser-installer.mjs` } };
const SNIPPET = { plain: "// the recorder\nwindow.recorderStarts();\n//# sourceMappingURL=x.map\n\n", full: "window.recorderStarts(); // ends with a comment" };
const OPTS = { plain: {}, full: { width: 800, height: 600, devTools: true, bypassCSP: true, uploadIntervalMs: 77, captureHttpOnlyCookies: false, appUrl: "https://app.example/start" } };
const doubles = (s, opt) => {
  const files = { "/snippet.js": SNIPPET[opt], "/worker.js": "worker()" };
  const fs = {
    readFile: async (f) => { const t = s.files?.[f] ?? files[f]; if (t === undefined) throw Object.assign(new Error(`ENOENT: ${f}`), { code: "ENOENT" }); return t; },
    mkdir: async () => undefined, writeFile: async (f, t) => { (s.files ??= {})[f] = String(t); }, rename: async (a, b) => { s.files[b] = s.files[a]; delete s.files[a]; },
  };
  const chalk = new Proxy(function () {}, { get: (_t, k) => (k === "then" ? undefined : chalk), apply: (_t, _o, [x]) => String(x) });
  // the rest of the package of common utilities is not under test here
  return { "fs/promises": fs, "node:fs/promises": fs, "puppeteer-core": s.b.module(), chalk: { default: chalk, ...{ __esModule: true } } };
};
const quiet = () => { const old = { log: console.log, error: console.error, warn: console.warn }; console.log = console.error = console.warn = () => {}; return () => Object.assign(console, old); };
/** what a page records, and how */
const recording = async (p) => {
  const w = p.window; const c = await w.__meticulous?.getAllCookies?.();
  return { recorded: !!w.recorded, token: w.METICULOUS_RECORDING_TOKEN, commit: w.METICULOUS_APP_COMMIT_HASH, source: w.METICULOUS_RECORDING_SOURCE, forced: w.METICULOUS_FORCE_RECORDING, interval: w.METICULOUS_UPLOAD_INTERVAL_MS, redacts: w.METICULOUS_REDACT_PASSWORDS ?? true, max: w.METICULOUS_MAX_PAYLOAD_SIZE ?? null,
    cookies: c ? c.map((x) => [x.name, x.value, x.domain, x.path, x.expires, x.sameSite, x.httpOnly, x.secure].join(" ")).join() : null, bypass: p.bypass };
};
const COOKIES = `sid v app.example / ${2_000_000_000_000} lax true true`;
const shown = (o) => JSON.stringify(o);

const login = (inst) => ({
  async setup(init) {
    const s = { init, b: new Browser(), unmute: quiet(), clock: new FakeClock().install(), bad: null }; s.m = inst(doubles(s, init.opt)); return s;
  },
  page(s, p) { return s.b.own[{ login: 0, data: 1, screen: 2 }[p]]; },
  /** pages in the order of what they are for */
  pages(s) { const [l, ...rest] = s.b.own; const screen = rest.find((p) => /login-flow-saving/.test(p.navigation?.url ?? "")); return { login: l, screen, data: rest.find((p) => p !== screen) }; },
  async step(s, a, to, from) {
    const opt = s.init.opt;
    if (a.n === "start") {
      if (a.f === "frame") s.b.frameless = true; else if (a.f !== "none") s.b.fault = a.f;
      s.r = track(s.m.recordLoginFlowSession({ recordingToken: "tok", recordingSnippet: "/snippet.js", workerRecordingSnippet: "/worker.js", ...OPTS[opt] }));
      await settle({ rounds: 4 });
      const l = this.pages(s).login;
      if (a.f === "none") {
        const u = OPTS[opt].appUrl ?? "https://app.meticulous.ai/docs/recording-a-login-flow"; if (l?.at !== u) return `the first page is ${l?.at}`;
        if (l.window.recorded) { if (opt === "plain") return "the guide is recorded"; } else { l.arrive("https://app.example/login"); await settle({ rounds: 2 }); }
        const got = shown(await recording(l)); const want = shown({ recorded: true, token: "tok", commit: "unknown", source: "cli-login-flow", forced: true, interval: opt === "full" ? 77 : 1000, redacts: false, max: null, cookies: opt === "full" ? null : COOKIES, bypass: opt === "full" });
        if (got !== want) return `recorded as ${got}, not ${want}`;
        if (!l.context.priv || s.b.default.list.some((p) => p.open)) return "not in a private window of its own";
      }
      return;
    }
    const { login: l, data: d, screen: sc } = this.pages(s);
    const end = (p, what, r) => { const o = p?.ops[what]; if (!o) return `${what} is not under way`; if (r === "ok") o.resolve(); else o.reject(new Error(`odd: ${what}`)); };
    let e;
    if (a.n === "loaded") e = end(l, "goto", a.r);
    else if (a.n === "begin") { if (!from.clicks) { l.arrive("https://app.example/after?x=1#y"); await settle({ rounds: 2 }); } await l.window.__meticulous_onBeginRecording({ sessionId: "s1" }); }
    else if (a.n === "begindata") await d.window.__meticulous_onBeginRecording({ sessionId: "s2" });
    else if (a.n === "click") { s.clickedAt ??= l.at; for (let i = 0; i < a.times; i++) { e ??= l.click(); Promise.resolve(l.clicked).catch(() => {}); } }
    else if (a.n === "screen") e = end(sc, "goto", a.r);
    else if (a.n === "flush") e = end(l, "flush", a.r);
    else if (a.n === "visit") e = end(d, "goto", a.r);
    else if (a.n === "flushdata") e = end(d, "flush", a.r);
    else if (a.n === "close") { const p = { login: l, data: d, screen: sc }[a.p]; p.shut(); }
    else if (a.n === "gone") s.b.vanish();
    await settle({ rounds: 5 });
    if (e) return e;
    if (a.n === "flush" && to.fin === "visit") {
      const at = this.pages(s).data; 
      if (at.at !== s.clickedAt) return `the data are taken from ${at.at}`;
      const got = shown(await recording(at)); const w = shown({ recorded: from.begun || opt === "full" || at.window.recorded, token: "tok", commit: "unknown", source: "cli-login-flow-application-storage", forced: true, interval: opt === "full" ? 77 : 1000, redacts: false, max: null, cookies: opt === "full" ? null : COOKIES, bypass: opt === "full" });
      if (got !== w) return `saved as ${got}, not ${w}`;
    }
  },
  observe(s) {
    const { login: l, data: d, screen: sc } = this.pages(s); const st = (p) => (!p ? "none" : p.open ? "open" : "closed");
    const ops = s.b.own.flatMap((p) => Object.keys(p.ops).map((o) => `${p === l ? "login" : p === sc ? "screen" : "data"}:${o}`)).sort();
    return { result: !s.r || s.r.state === "pending" ? "none" : s.r.state === "ok" ? "ok" : "failed", pages: [st(l), st(d), st(sc)].join(), closed: s.b.closes > 0, waits: ops.join(), launches: s.b.launches };
  },
  expect(st) {
    const waits = st.main === "opening" ? ["login:goto"] : st.main === "recording" ? { no: [], screen: ["screen:goto"], flush: ["login:flush"], visit: ["data:goto"], flushdata: ["data:flush"] }[st.fin] : [];
    return { result: st.result, pages: [st.login, st.data, st.screen].join(), closed: st.main === "ended" && st.launched, waits: waits.join(), launches: st.launched ? 1 : 0 };
  },
  async teardown(s) { if (s.r?.state === "pending") { s.b.vanish(); await settle({ rounds: 5 }); } s.clock.uninstall(); s.unmute(); },
});

const session = (inst) => ({
  async setup(init) {
    const s = { init, b: new Browser(), unmute: quiet(), clock: new FakeClock().install(), told: [], opt: init.port ? "full" : "plain" };
    s.kept = [{ name: "old", value: "1", domain: "app.example" }];
    if (init.store !== "nothing") s.files = { "/cookies/cookies.json": { kept: JSON.stringify(s.kept, null, 2), broken: JSON.stringify(s.kept, null, 2).slice(0, 20), empty: "[]" }[init.store] };
    s.m = inst(doubles(s, s.opt)); return s;
  },
  page: (s) => s.b.own[0],
  async step(s, a) {
    const p = this.page(s);
    if (a.n === "start") {
      if (a.f !== "none") s.b.fault = a.f;
      s.r = track(s.m.recordSession({ recordingToken: "tok", appCommitHash: "c0", recordingSnippet: "/snippet.js", workerRecordingSnippet: "/worker.js", incognito: s.init.incognito, cookieDir: s.init.dir ? "/cookies" : null, ...(s.init.port ? { remoteDebuggingPort: 9222, maxPayloadSize: 5 } : {}), ...OPTS[s.opt], onDetectedSession: (x) => { s.told.push(x); } }));
      await settle({ rounds: 4 });
      const q = this.page(s);
      if (a.f === "none") {
        q.evaluates = async () => { if (s.mood === "navigating") throw new Error("Execution context was destroyed, most likely because of a navigation."); if (s.mood === "odd") throw new Error("odd"); return s.now || undefined; };
        if (s.opt === "plain") { if (q.window.recorded) return "the guide is recorded"; q.at = "https://app.example/"; q.arrive(q.at); }
        const got = shown(await recording(q)); const want = shown({ recorded: true, token: "tok", commit: "c0", source: "cli", forced: true, interval: s.opt === "full" ? 77 : 1000, redacts: true, max: s.opt === "full" ? 5 : null, cookies: s.opt === "full" ? null : COOKIES, bypass: s.opt === "full" });
        if (got !== want) return `recorded as ${got}, not ${want}`;
        for (const bad of ["about:blank", "chrome-error://x", "https://app.meticulous.ai/docs/recording-a-test"]) { q.arrive(bad); if (q.window.recorded) return `${bad} is recorded`; } q.arrive("https://app.example/", "null"); if (q.window.recorded) return "a page without an origin is recorded"; q.arrive("https://app.example/");
        const args = s.b.options.args ?? []; if (args.includes("--remote-debugging-port=9222") !== s.init.port) return "the port for debugging is not as asked for";
      }
    } else if (a.n === "loaded") { const o = p.ops.goto; if (!o) return "nothing is loading"; if (a.r === "ok") o.resolve(); else o.reject(new Error("net::ERR_CONNECTION_REFUSED")); }
    else if (a.n === "move") { s.now = a.x; p.cookieJar = [{ ...COOKIE, value: `v${(s.n = (s.n ?? 0) + 1)}` }]; }
    else if (a.n === "tick") { s.mood = a.k; await s.clock.advance(1000); await settle({ rounds: 3 }); s.mood = "ok"; }
    else if (a.n === "close") p.shut();
    else if (a.n === "after") { if (p) p.evaluates = async () => { s.asked = true; return "later"; }; await s.clock.advance(2000); }
    await settle({ rounds: 4 });
    if (s.asked) return "a closed page is asked for its session";
  },
  observe(s, st) {
    const p = this.page(s); const jar = s.files?.["/cookies/cookies.json"];
    return { result: !s.r || s.r.state === "pending" ? "none" : s.r.state === "ok" ? "ok" : "failed", told: s.told, closed: s.b.closes > 0, restored: st.main === "opening" ? shown(p?.restored ?? null) : "", private: !!s.b.contexts.find((c) => c.priv), jar: st.store === "now" ? (() => { try { return shown(JSON.parse(jar)); } catch { return "broken"; } })() : jar ?? "none", page: p ? p.open : false };
  },
  expect(st, act, s) {
    return { result: st.result, told: st.told, closed: st.main === "ended" && st.launched, restored: st.main === "opening" ? shown(st.restored ? s.kept : null) : "", private: st.private,
      jar: st.store === "now" ? (act.n === "tick" && act.k === "ok" ? (s.last = shown(this.page(s).cookieJar)) : s.last) : { nothing: "none", kept: JSON.stringify(s.kept, null, 2), broken: JSON.stringify(s.kept, null, 2).slice(0, 20), empty: "[]" }[st.store], page: ["opening", "recording"].includes(st.main) };
  },
  async teardown(s) { if (s.r?.state === "pending") { s.b.vanish(); await settle({ rounds: 5 }); } s.clock.uninstall(); s.unmute(); },
});
export default {
  property: "L03",
  assumptions: ["the browser is a double of puppeteer's: pages load, send and close as the driver says; pages' own code runs in doubles of window and document"],
  models: [
    {
      name: "login", spec: "LoginFlow", driver: async () => login(await bundle("record/src/record/record-login-flow.ts", INSTALLED)),
      runs: ({ tier }) => [{ name: "flow", cfg: { constants: { Faults: set("none", "launch", "context", "page", "expose", "frame", "bootstrap"), Options: set("plain", "full"), Ends: set("ok", "fails"), MaxClicks: tier === "thorough" ? 4 : 2 }, invariants: ["OnlyIfSaved", "AlwaysReported", "NothingLeft", "Succeeds"], properties: ["SentFirst", "Final"] }, maxPaths: 8000, walks: 500 }],
    },
    {
      name: "session", spec: "RecordSession", driver: async () => session(await bundle("record/src/record/record.ts", INSTALLED)),
      runs: ({ tier }) => [{ name: "sessions", cfg: { constants: { Faults: set("none", "launch", "context", "page", "cookies", "bootstrap"), Incognitos: set(true, false), Ports: set(true, false), Dirs: set(true, false), Stores: set("nothing", "kept", "broken", "empty"), Sessions: set("", "s1", "s2"), MaxTicks: tier === "thorough" ? 5 : 3, MaxMoves: tier === "thorough" ? 4 : 3 }, invariants: ["Once", "PrivateStays", "Reported"], properties: ["NoneLost"] }, maxPaths: 15000, walks: 300 }],
    },
  ],
};
