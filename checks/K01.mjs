import { bundle } from "../lib/bundle.mjs";
import { FakeClock, settle } from "../lib/clock.mjs";
import { track, deferred } from "../lib/util.mjs";
import { Child, Process } from "../harness/process.mjs";
const set = (...a) => `{${a.map((x) => (typeof x === "string" ? `"${x}"` : typeof x === "boolean" ? String(x).toUpperCase() : x)).join(", ")}}`;
const TICK = 5500;
const quiet = () => { const old = { log: console.log, error: console.error, warn: console.warn, info: console.info }; console.log = console.error = console.warn = console.info = () => {}; return () => Object.assign(console, old); };
const idle = () => settle({ rounds: 4, io: true });

/** The recorder's HTTP interface: what is asked there, and answers as the model says. */
const server = (s) => {
  s.asked = []; s.pending = []; s.realFetch = globalThis.fetch;
  globalThis.fetch = (url, o = {}) => {
    const u = String(url); const m = o.method ?? "GET"; s.asked.push(`${m} ${u}`);
    const mode = s.recorders?.length && !s.recorders.at(-1).running ? "refused" : /\/v1\/flush$/.test(u) ? s.flushMode : /\/v1\/health$/.test(u) ? s.health : "refused";
    const r = (status) => ({ ok: status < 300, status, text: async () => "", json: async () => ({ ok: true }), body: null });
    if (o.signal?.aborted) return Promise.reject(Object.assign(new Error("aborted"), { name: "AbortError" }));
    if (mode === "ok") return Promise.resolve(r(200));
    if (mode === "bad") return Promise.resolve(r(503));
    if (mode === "hang") { const d = deferred(); s.pending.push({ d, r }); o.signal?.addEventListener("abort", () => d.reject(Object.assign(new Error("aborted"), { name: "AbortError" }))); return d.promise; }
    return Promise.reject(new TypeError("fetch failed"));
  };
};

const sidecar = (inst) => ({
  async setup() {
    const s = { clock: new FakeClock().install(), unmute: quiet(), children: [], told: 0, p: new Process(["node", "main.js"], { PATH: "/bin", METICULOUS_EXPORT_MODE: "none" }) };
    server(s);
    const spawn = (file, args, o) => { const c = new Child(file, args, o, s.death); c.unheard = () => s.p.ended !== null; s.children.push(c); if (s.nextHealth === "error") { queueMicrotask(() => c.fail()); c.unborn = true; } s.health = s.nextHealth; return c; };
    s.m = inst({ child_process: { spawn }, "node:child_process": { spawn } }, { process: s.p }); return s;
  },
  async step(s, a, to, from) {
    const c = s.children.at(-1);
    if (a.n === "start") {
      s.nextHealth = a.h; s.death = a.d;
      s.r = track(s.m.startSidecar({ bundlePath: "/bundle.cjs", port: 9670, env: { METICULOUS_RECORDING_TOKEN: "tok", METICULOUS_EXPORT_MODE: "s3" }, onRecordingStopped: () => { s.told++; } }));
      await idle(); if (a.h === "error") { s.health = "refused"; await s.clock.advance(TICK); }
    } else if (a.n === "answer") s.health = a.h;
    else if (a.n === "tick") await s.clock.advance(TICK);
    else if (a.n === "exit") { s.nextHealth = a.h; const n = from.ticks + from.flushes; if (n % 4 === 3) c.end(null, "SIGKILL"); else c.end([1, 0, 3][n % 4]); await idle(); if (a.h === "error") { s.health = "refused"; await s.clock.advance(TICK); } }
    else if (a.n === "exitearly") {
      if (a.late) { const w = s.pending.at(-1); if (!w) return "nobody asks for its health"; c.end(3); w.d.resolve(w.r(200)); } else { c.stderr?.write("boom\n"); await idle(); c.end(3); }
      s.health = "refused"; await idle(); await s.clock.advance(TICK);
    } else if (a.n === "exitstopping") c.end(0);
    else if (a.n === "flush") { s.flushMode = a.f === "fails" ? "refused" : a.f; const r = track(s.r.value.flush()); await idle(); if (r.state !== "ok") return `flushing does not end well: ${r.state}`; }
    else if (a.n === "stop") { s.flushMode = a.f === "fails" ? "refused" : a.f; s.stop = track(s.r.value.stop()); }
    else if (a.n === "stopagain") { const r = track(s.r.value.stop()); await idle(); if (r.state === "error") return "asked again to stop, it fails"; }
    else if (a.n === "cli") { if (a.k === "exit") s.p.exit(0); else s.p.signal(["SIGINT", "SIGTERM", "SIGHUP"][(from.ticks + s.asked.length) % 3]); }
    await idle();
    if (a.n === "cli" && s.p.ended === null) return "the tool does not end";
    if (s.children.length === 1 && a.n === "start") {
      const k = s.children[0]; const e = k.options?.env ?? {};
      if (k.file !== s.p.execPath || k.args.join() !== "/bundle.cjs" || e.METICULOUS_SIDECAR_PORT !== "9670" || e.METICULOUS_RECORDING_TOKEN !== "tok" || e.METICULOUS_EXPORT_MODE !== "s3" || e.PATH !== "/bin" || k.options.detached !== true) return "the process is not spawned as configured";
    }
    if (s.r.state === "ok" && (s.r.value.url !== "http://127.0.0.1:9670" || s.r.value.port !== 9670)) return "another address is given";
    if (s.asked.some((x) => !/^(GET http:\/\/127\.0\.0\.1:9670\/v1\/health|POST http:\/\/127\.0\.0\.1:9670\/v1\/flush)$/.test(x))) return `asked for ${s.asked.join()}`;
  },
  observe(s) {
    const c = s.children.at(-1); return { started: !s.r || s.r.state === "pending" ? "pending" : s.r.state, spawns: s.children.length, running: !!c?.running, sent: [...new Set(c?.sent ?? [])].join(), told: s.told, stopped: s.stop ? s.stop.state : "no", flushes: s.asked.filter((x) => x.includes("flush")).length };
  },
  expect(st) {
    return { started: ["off", "starting"].includes(st.ph) ? "pending" : st.ph === "failed" ? "error" : "ok", spawns: st.spawns, running: st.proc === "running", sent: [...new Set(st.sent)].join(), told: st.told, stopped: st.stp === "no" ? "no" : st.stp === "done" ? "ok" : "pending", flushes: st.flushes };
  },
  async teardown(s) { s.health = "refused"; for (const c of s.children) c.death = "obeys"; await s.clock.advance(60_000); for (const c of s.children) c.end(0); await s.clock.advance(60_000); globalThis.fetch = s.realFetch; s.clock.uninstall(); s.unmute(); },
});
/** What the tool itself is started with, as the model names it. */
const LINES = {
  dev: [["npx", "wrangler", "dev", "--port", "8788"], ["pnpm", "exec", "wrangler", "dev"], ["yarn", "-q", "wrangler", "dev", "--", "x"], ["./node_modules/.bin/wrangler", "dev"], ["npx", "-y", "wrangler", "dev", "7"]],
  pages: [["npx", "wrangler", "pages", "dev", "./dist"], ["wrangler", "pages", "dev"], ["bunx", "--silent", "wrangler", "pages", "dev", "--port=1"]],
  other: [["npm", "run", "dev", "--", "--port", "1"], ["wrangler", "deploy"], ["npx", "wrangler", "pages", "deploy"], ["wrangler-dev", "dev"], ["node", "wrangler", "dev"], ["npx", "--yes"], ["make"]],
};
const devcommand = (inst) => {
  let n = 0;
  return {
    async setup() {
      const s = { clock: new FakeClock().install(), unmute: quiet(), recorders: [], devs: [], asset: deferred(), health: "hang", flushMode: "hang", captured: 0, bound: [] };
      server(s); return s;
    },
    async step(s, a, to, from) {
      const rec = s.recorders.at(-1), dev = s.devs.at(-1);
      if (a.n === "start") {
        n++; const lines = LINES[to.kind].filter((l) => to.mode === "wrapped" || !l.includes("--")); s.line = lines[n % lines.length]; s.obeys = to.obeys;
        s.p = new Process(["/usr/bin/node", "/cli.js", "record", "backend", ...(to.inj ? [] : ["--no-inject-sidecar-var"]), ...(to.mode === "wrapped" ? ["--", ...s.line] : to.mode === "noseparator" ? s.line : n % 2 ? ["--"] : [])], { PATH: "/bin" });
        const spawn = (file, args, o) => { const c = new Child(file, args, o, file === s.p.execPath ? "obeys" : s.obeys ? "obeys" : "ignores"); c.unheard = () => s.p.ended !== null; (file === s.p.execPath ? s.recorders : s.devs).push(c); if (s.recorders.length === 2 && file === s.p.execPath) s.health = "ok"; return c; };
        let taken = 41000;
        const createServer = () => { const h = {}; return { once: (e, f) => { h[e] = f; }, listen: (port, host, f) => { s.bound.push(port); queueMicrotask(() => (port !== 0 && s.port === "busy" ? h.error?.(Object.assign(new Error("in use"), { code: "EADDRINUSE" })) : f())); }, address: () => ({ port: taken }), close: (f) => queueMicrotask(() => f?.()) }; };
        const project = to.tok === "none" ? null : { name: "app", organization: { name: "org" }, recordingToken: to.tok === "blank" ? "" : "tok-project" };
        const doubles = {
          child_process: { spawn }, net: { createServer },
          "@alwaysmeticulous/client": { resolveApiTokenWithOAuth: async () => "api", isOAuthJwt: () => false, createClientWithOAuth: async () => ({}), getProject: async () => project, isFetchError: () => false, resolveDefaultProjectId: async () => "p" },
          "@alwaysmeticulous/downloading-helpers": { fetchAsset: (path) => { s.assetPath = path; return s.asset.promise; } },
          "@alwaysmeticulous/sentry": { SENTRY_FLUSH_TIMEOUT: { toMillis: () => 1 } },
          "@sentry/node": { captureException: () => { s.captured++; }, getActiveSpan: () => undefined, flush: async () => true, setContext() {} },
        };
        s.m = inst(doubles, { process: s.p });
        s.r = track(s.m.recordBackendCommand.handler({ apiToken: null, recordingToken: to.tok === "given" ? "tok-given" : undefined, port: 9670, exportMode: to.inj ? "s3" : "local", localOutputDir: to.inj ? undefined : "/out", injectSidecarVar: to.inj, devCommand: to.mode === "noseparator" ? s.line : [] }));
      } else if (a.n === "fetched") { s.port = a.p; s.asset.resolve("/bundle.cjs"); }
      else if (a.n === "notfetched") s.asset.reject(new Error("404"));
      else if (a.n === "healthy") { s.health = "ok"; await s.clock.advance(1500); }
      else if (a.n === "unhealthy") { if (from.inj) { rec.end(1); s.health = "refused"; await s.clock.advance(1500); } else { s.health = "refused"; await s.clock.advance(17_000); } }
      else if (a.n === "signal") s.p.signal(a.s);
      else if (a.n === "tick") await s.clock.advance(5100);
      else if (a.n === "exit") dev.end(a.c);
      else if (a.n === "killed") dev.end(null, "SIGSEGV");
      else if (a.n === "missing") dev.fail();
      else if (a.n === "crash") rec.end(2);
      else if (a.n === "flushed") { const all = s.pending.splice(0); if (from.sc === "running" && all.length === 0) return "nothing is flushed"; all.forEach((x) => x.d.resolve(x.r(200))); }
      await idle(); await idle();
      if (a.n === "start") return;
      const d = s.devs.at(-1);
      if (to.scs > 0 && s.recorders[0]) {
        const e = s.recorders.at(-1).options.env; const port = to.port === "busy" ? 41000 : 9670;
        s.url = `http://127.0.0.1:${port}`;
        if (e.METICULOUS_SIDECAR_PORT !== String(port) || e.METICULOUS_RECORDING_TOKEN !== `tok-${to.tok}` || e.METICULOUS_EXPORT_MODE !== (to.inj ? "s3" : "local") || e.METICULOUS_LOCAL_OUTPUT_DIR !== (to.inj ? undefined : "/out") || e.METICULOUS_PROJECT_NAME !== (to.tok === "project" ? "app" : undefined)) return "the recorder is not configured as asked for";
      }
      if (d) {
        const want = to.rec === "no" || !to.inj || to.kind === "other" ? s.line : to.kind === "dev" ? [...s.line, "--var", `METICULOUS_SIDECAR_URL:${s.url}`] : [...s.line, "--binding", `METICULOUS_SIDECAR_URL=${s.url}`];
        if (JSON.stringify([d.file, ...d.args]) !== JSON.stringify(want)) return `the dev command is ${JSON.stringify([d.file, ...d.args])}`;
        if (JSON.stringify(d.options.env) !== JSON.stringify({ PATH: "/bin", ...(to.rec === "no" ? {} : { METICULOUS_SIDECAR_URL: s.url }) })) return "the dev command's environment is another one";
        if (d.options.stdio !== "inherit" || d.options.detached) return "the dev command is not attached to the terminal";
      }
    },
    observe(s) {
      const d = s.devs.at(-1), r = s.recorders.at(-1);
      return { recorders: s.recorders.length, running: !!r?.running, devs: s.devs.length, dev: !!d?.running, got: (d?.sent ?? []).join(), flushed: s.asked.filter((x) => x.includes("flush")).length, ended: s.p?.ended ?? "", reported: s.captured, settled: !s.r || s.p.ended?.startsWith("exit") || s.r.state === "pending" };
    },
    expect(st) {
      const stopped = st.ph === "draining" || (st.ph === "ended" && st.rec === "up" && st.ended.startsWith("exit"));
      return { recorders: st.scs, running: st.sc === "running", devs: st.dev === "none" ? 0 : 1, dev: st.dev === "running", got: st.got.join(), flushed: stopped ? 1 : 0, ended: st.ended, reported: st.reported, settled: true };
    },
    async teardown(s) { s.asset.reject(new Error("over")); s.health = "refused"; s.flushMode = "refused"; await s.clock.advance(30_000); for (const c of [...s.recorders, ...s.devs]) { c.death = "obeys"; c.end(0); } await s.clock.advance(60_000); globalThis.fetch = s.realFetch; s.clock.uninstall(); s.unmute(); },
  };
};
export default {
  property: "K01",
  assumptions: ["processes, signals and the recorder's HTTP interface are doubles; a process that was killed exits unless the model says otherwise"],
  models: [
    {
      name: "sidecar", spec: "Sidecar", driver: async () => sidecar(await bundle("cli/src/commands/record/backend-sidecar.utils.ts")),
      runs: ({ tier }) => [{ name: "supervision", cfg: { constants: { Healths: set("refused", "bad", "hang", "ok", "error"), Deaths: set("obeys", "ignores", "stays"), Flushes: set("ok", "fails", "hang"), MaxTicks: tier === "thorough" ? 10 : 6, MaxFlushes: 1 }, invariants: ["RestartedOnce", "ToldOnce", "Announced", "NoOrphan"], properties: ["TermFirst", "NotToldWhenStopped", "UpIfWell", "FlushedOnce"] }, maxPaths: tier === "thorough" ? 20000 : 6000, walks: 200 }],
    },
    {
      name: "devcommand", spec: "DevCommand", driver: async () => devcommand(await bundle("cli/src/commands/record/backend.command.ts", { externalOwn: ["@alwaysmeticulous/client", "@alwaysmeticulous/downloading-helpers", "@alwaysmeticulous/sentry"] })),
      runs: ({ tier }) => [{ name: "dev command", cfg: { constants: { Modes: set("wrapped", "only", "noseparator"), Kinds: set("dev", "pages", "other"), Tokens: set("given", "project", "none", "blank"), Signals: set("SIGINT", "SIGTERM", "SIGHUP"), Codes: set(0, 1, 7), MaxSignals: 2, MaxTicks: tier === "thorough" ? 3 : 2 }, invariants: ["DevRuns", "NothingLeft"], properties: ["RecorderLast", "NotForTheRecorder", "CodePassedOn", "KilledLast"] }, maxPaths: tier === "thorough" ? 40000 : 14000, walks: 200 }],
    },
  ],
};
