import { bundle } from "../lib/bundle.mjs";
import { FakeClock, settle } from "../lib/clock.mjs";
import { track } from "../lib/util.mjs";
import { Api } from "../harness/api.mjs";

const U = { given: 7_000, default: 10_000 };
const driver = (inst, given) => ({
  run(id, st, b) {
    const arg = { none: undefined, own: id, other: "base-1", malformed: id === "run-1" ? "" : { id: "base-1" } }[b ?? "none"];
    return { id, status: st, configData: b === "none" && st === "Success" ? null : { arguments: { baseTestRunId: arg, commitSha: "c" } } };
  },
  async setup(init) {
    const s = { api: new Api(), u: U[init.opt], clock: new FakeClock().install() };
    const o = { client: s.api, ...(init.opt === "default" ? {} : { pollIntervalMs: s.u, timeoutMs: given * s.u }), ...(init.skip ? { skipRegisteringExpectedCustomChecks: true } : {}) };
    const mod = inst();
    s.out = track(init.entry === "id" ? mod.findTestRunForCustomChecks({ ...o, testRunId: "run-1" }) : mod.findTestRunByCommitForCustomChecks({ ...o, commitSha: "c0ffee" }));
    await settle({ rounds: 2 });
    return s;
  },
  path: { latest: "GET test-runs/cache", head: "GET test-runs/run-1", patch: "GET test-runs/run-1/network-patching-result", merged: "GET test-runs/merged-1", base: "GET test-runs/base-1" },
  async step(s, act, to, from) {
    if (act.n === "rest") { await s.clock.advance(s.u - 1); await settle({ rounds: 2 }); if (s.api.open().length) return "asked again too early"; await s.clock.advance(1); await settle({ rounds: 2 }); return; }
    const [c] = s.api.open(); if (!c) return "nothing is asked";
    if (act.lat) { await s.clock.advance(act.lat * s.u); await settle({ rounds: 2 }); if (!c.open || s.out.state !== "pending") return "given up while a call is under way"; }
    const fail = (e) => (e === "network" ? c.fail("ECONNRESET") : c.fail(Number(e)));
    switch (act.n) {
      case "latest": if (c.params.commitSha !== "c0ffee") return "asked for another commit"; if (act.k === "found") c.answer({ id: "run-1", status: "Running" }); else fail(act.k === "missing" ? 404 : act.k); break;
      case "head": c.answer(s.head = this.run("run-1", act.st, act.b)); break;
      case "patch": c.answer({ isNetworkPatchingInProgress: act.going, effectiveTestRunId: act.to === "head" ? "run-1" : "merged-1" }); break;
      case "merged": c.answer(s.merged = this.run("merged-1", "Success", act.b)); break;
      case "mark": if (act.k === "ok") c.answer({}); else fail(act.k); break;
      case "base": c.answer(this.run("base-1", act.st)); break;
      case "fails": fail(act.e); break;
    }
    await settle({ rounds: 3 });
  },
  observe(s, to) {
    return { open: s.api.open().map((c) => `${c.method} ${c.path}`), marks: s.api.calls.filter((c) => c.method === "POST").map((c) => c.path), state: s.out.state, timers: s.clock.pending().length,
      value: s.out.state !== "ok" ? null : [s.out.value.testRunId, s.out.value.testRun === (to.res === "merged" ? s.merged : s.head)] };
  },
  expect(m) {
    const id = { head: "run-1", merged: "merged-1" }; const over = ["ok", "failed"].includes(m.phase);
    return { open: over || m.resting ? [] : [m.phase === "mark" ? `POST test-runs/${id[m.res]}/expect-custom-checks` : this.path[m.phase]], marks: m.marked !== "none" || m.phase === "mark" ? [`test-runs/${id[m.res]}/expect-custom-checks`] : [],
      state: { ok: "ok", failed: "error" }[m.phase] ?? "pending", timers: m.resting ? 1 : 0, value: m.phase === "ok" ? [id[m.res], true] : null };
  },
  async finish(s, m) { if (!["ok", "failed"].includes(m.phase)) return; const n = s.api.calls.length; await s.clock.advance(10_000_000); await settle({ rounds: 2 }); if (s.api.calls.length !== n) return "asked again after the end"; },
  async teardown(s) {
    s.api.auto.push((c) => (c.fail(404), true));
    for (let i = 0; i < 20 && s.out.state === "pending"; i++) { for (const c of s.api.open()) c.fail(404); await settle({ rounds: 2 }); if (s.out.state === "pending") await s.clock.advance(4_000_000, { rounds: 1 }); await settle({ rounds: 2 }); }
    s.clock.uninstall();
  },
});
const set = (...a) => `{${a.map((x) => (typeof x === "string" ? `"${x}"` : typeof x === "boolean" ? String(x).toUpperCase() : x)).join(", ")}}`;
const INV = { invariants: ["FailsOnlyEarly", "MarkedIsReturned", "SkipIsHeeded"], properties: ["Robust", "NeverBackToEarlier"] };
const one = (given) => async () => driver(await bundle("custom-checks/src/index.ts"), given);
const ALL = { Going: set("Scheduled", "Running", "PreProcessing", "PostProcessing"), Ended: set("Success", "Failure", "Partial"), Useless: set("Skipped", "Aborted", "ExecutionError") };
const FEW = { Going: set("Running"), Ended: set("Success"), Useless: set("Skipped") };
const ERR = set("500", "network", "404", "403", "401", "408", "429");
export default {
  property: "C01",
  assumptions: ["time and the API client are replaced by doubles"],
  models: [
    { name: "budget", spec: "WaitForChecks", driver: one(2), runs: ({ tier }) => {
      const t = tier === "thorough";
      return [
        { name: "given", cfg: { constants: { Entries: set("id"), Opts: set("given"), Given: 2, Skips: set(false), ...FEW, Lats: set(0, 1, 3), Bases: set("none", "other"), Errors: set("500", "404"), MaxPolls: t ? 6 : 4 }, ...INV }, maxPaths: t ? 40000 : 6000, walks: t ? 4000 : 300 },
        { name: "answers", cfg: { constants: { Entries: set("id", "commit"), Opts: set("given"), Given: 2, Skips: set(true, false), ...ALL, Lats: set(0), Bases: set("none", "own", "other", "malformed"), Errors: ERR, MaxPolls: t ? 3 : 2 }, ...INV }, maxPaths: t ? 40000 : 5000, walks: t ? 4000 : 300 },
        { name: "default", cfg: { constants: { Entries: set("id", "commit"), Opts: set("default"), Given: 2, Skips: set(false), ...FEW, Lats: set(0, 90), Bases: set("none", "other"), Errors: set("500", "404"), MaxPolls: t ? 4 : 3 }, ...INV }, maxPaths: t ? 40000 : 3000, walks: t ? 4000 : 200 },
      ];
    } },
  ],
};
