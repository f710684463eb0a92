// Runs the check of one property: model checking with TLC, then conformance of the real code with the model.
//
//   node bin/check.mjs <ID> [--tier quick|thorough] [--replay FILE] [--model NAME]
import { mkdirSync, readFileSync, writeFileSync, existsSync } from "node:fs";
import { isDeepStrictEqual } from "node:util";
import { fork } from "node:child_process";
import { cpus } from "node:os";
import { runTlc, makeCfg, makeGraph, coverPaths, deepen } from "./tlc.mjs";
import { real } from "./clock.mjs";

export const VERIF = new URL("../", import.meta.url).pathname;
const STEP_TIMEOUT = 30_000;

class Hang extends Error {}
const limit = (p, what) => {
  let t;
  return Promise.race([p, new Promise((_, rej) => { t = real.setTimeout(() => rej(new Hang(`no answer within ${STEP_TIMEOUT} ms: ${what}`)), STEP_TIMEOUT); })])
    .finally(() => real.clearTimeout(t));
};

let stray = [];
process.on("unhandledRejection", (e) => { stray.push(`unhandled rejection: ${e && e.stack ? e.stack.split("\n").slice(0, 3).join(" | ") : e}`); });
process.on("uncaughtException", (e) => { stray.push(`uncaught exception: ${e && e.stack ? e.stack.split("\n").slice(0, 3).join(" | ") : e}`); });

const clean = (v) => (v === undefined ? null : JSON.parse(JSON.stringify(v, (k, x) => (x === undefined ? "__undef" : x instanceof Map ? [...x] : x instanceof Set ? [...x] : typeof x === "bigint" ? Number(x) : x))));

/**
 * Replays one path (array of {act, to}) from state `init` in the real code.
 * driver: { setup(init, env) -> sut, step(sut, act, to, from) , observe(sut, to) -> obs, expect(state, act, sut) -> obs, finish?(sut, state), teardown?(sut) }
 */
export async function replayPath(driver, init, path, env) {
  stray = [];
  let sut; let at = -1; let mismatch;
  try {
    sut = await limit(driver.setup(init, env), "setup");
    let from = init;
    if (driver.observeInit !== false) {
      const got = clean(await limit(driver.observe(sut, init), "observe"));
      const want = clean(driver.expect(init, undefined, sut));
      if (!isDeepStrictEqual(got, want)) mismatch = { step: -1, expected: want, actual: got };
    }
    for (at = 0; at < path.length && !mismatch; at++) {
      const { act, to } = path[at];
      const stepErr = await limit(driver.step(sut, act, to, from), `step ${JSON.stringify(act)}`);
      if (stepErr) { mismatch = { step: at, error: String(stepErr) }; break; }
      const got = clean(await limit(driver.observe(sut, to, act), "observe"));
      const want = clean(driver.expect(to, act, sut));
      if (!isDeepStrictEqual(got, want)) mismatch = { step: at, expected: want, actual: got };
      from = to;
    }
    if (!mismatch && driver.finish) {
      at = path.length;
      const r = await limit(driver.finish(sut, path.length ? path[path.length - 1].to : init), "finish");
      if (r) mismatch = { step: at, error: String(r) };
    }
  } catch (e) {
    mismatch = { step: at, error: e && e.stack ? e.stack : String(e) };
  } finally {
    try { if (sut && driver.teardown) await limit(driver.teardown(sut), "teardown"); } catch (e) { mismatch ??= { step: path.length, error: `teardown: ${e && e.stack ? e.stack : e}` }; }
  }
  if (!mismatch && stray.length) {
    await new Promise((r) => real.setImmediate(r));
    mismatch = { step: path.length, error: stray[0] };
  }
  return mismatch;
}

function firstDiff(a, b, path = "") {
  if (isDeepStrictEqual(a, b)) return undefined;
  if (a && b && typeof a === "object" && typeof b === "object" && Array.isArray(a) === Array.isArray(b)) {
    for (const k of new Set([...Object.keys(a), ...Object.keys(b)])) {
      const d = firstDiff(a[k], b[k], `${path}.${k}`);
      if (d) return d;
    }
  }
  return `${path || "."}: model ${JSON.stringify(a)?.slice(0, 300)} / code ${JSON.stringify(b)?.slice(0, 300)}`;
}

export async function runCheck(check, { tier, seed, replay, onlyModel }) {
  const t0 = Date.now();
  const id = check.property;
  const outDir = `${VERIF}out/${id}`;
  mkdirSync(outDir, { recursive: true });
  mkdirSync(`${VERIF}evidence`, { recursive: true });
  const known = existsSync(`${VERIF}known_findings.txt`)
    ? readFileSync(`${VERIF}known_findings.txt`, "utf8").split("\n").filter((l) => l.startsWith("known: ")).map((l) => JSON.parse(l.slice(7))).filter((k) => k.property === id)
    : [];
  const violations = []; const knownHits = new Map();
  let states = 0, transitions = 0, traces = 0, steps = 0, edgesTotal = 0, edgesCov = 0;
  const perModel = []; const samples = []; const assumptions = new Set(check.assumptions ?? []);
  const budgetMs = tier === "thorough" ? 3_000_000 : 420_000;
  let harnessError;

  const record = (modelName, init, path, mm) => {
    const sig = { model: modelName, init, acts: path.map((s) => s.act), mismatch: mm };
    const hit = known.find((k) => k.model === modelName && (check.matchesKnown ? check.matchesKnown(k, sig) : false));
    if (hit) { knownHits.set(hit.key, hit); return "known"; }
    const file = `${outDir}/violation-${violations.length + 1}.json`;
    writeFileSync(file, JSON.stringify({ property: id, tier, seed, model: modelName, init, path, mismatch: mm }, null, 1));
    violations.push({ file, modelName, mm, acts: sig.acts });
    return "violation";
  };

  if (replay) {
    const r = JSON.parse(readFileSync(replay, "utf8"));
    const model = check.models.find((m) => m.name === r.model);
    const driver = await model.driver({ tier, seed });
    const mm = await replayPath(driver, r.init, r.path, { seed });
    console.log(mm ? `REPRODUCED ${JSON.stringify(mm, null, 1)}` : "not reproduced");
    if (mm) console.log(`VIOLATION property=${id} replay=${replay}`);
    return mm ? 1 : 0;
  }

  for (const model of check.models) {
    if (onlyModel && model.name !== onlyModel) continue;
    const mt0 = Date.now();
    for (const a of model.assumptions ?? []) assumptions.add(a);
    try {
      const driver = model.driver ? await model.driver({ tier, seed }) : undefined;
      const runs = typeof model.runs === "function" ? model.runs({ tier, seed }) : model.runs;
      for (const run of runs) {
        const emit = run.emit ?? true;
        const cfg = makeCfg({ ...run.cfg, emit });
        const res = await runTlc({ spec: run.spec ?? model.spec, cfg, workers: run.workers ?? (emit ? 1 : 4), heap: run.heap, extraArgs: run.extraArgs, timeoutMs: run.timeoutMs ?? 800_000 });
        if (!res.ok) {
          writeFileSync(`${outDir}/tlc-${model.name}.log`, res.log);
          throw new Error(`TLC failed on ${model.name} (${run.name ?? ""}): see out/${id}/tlc-${model.name}.log\n${res.log.split("\n").filter((l) => /Error|violated/.test(l)).slice(0, 6).join("\n")}`);
        }
        states += res.distinct; transitions += res.generated;
        const info = { model: model.name, run: run.name, states: res.distinct, transitions: res.generated, tlc_s: (Date.now() - mt0) / 1000 };
        if (emit && driver) {
          const g = makeGraph(res.edges);
          // every state must be reachable over the printed transitions: otherwise two of them are one state printed differently
          const seenNodes = new Set(g.inits); for (const q = [...g.inits]; q.length;) for (const e of g.out[q.pop()]) if (!seenNodes.has(e.to)) { seenNodes.add(e.to); q.push(e.to); }
          if (seenNodes.size !== g.nodes.length) throw new Error(`${model.name} (${run.name ?? ""}): ${g.nodes.length - seenNodes.size} states are not connected: ${JSON.stringify(g.nodes.find((_, i) => !seenNodes.has(i))).slice(0, 400)}`);
          const d = deepen(g, run.deepen ?? (tier === "thorough" ? 40_000 : 3_000));
          const { paths } = coverPaths(d.g, { seed, walks: run.walks ?? 0, maxLen: run.maxLen ?? 40, maxPaths: run.maxPaths, extend: run.extend });
          let n = 0, st = 0, bad = 0; const r0 = Date.now();
          const toItem = (p, i) => ({ i, init: d.g.nodes[p[0].from], path: p.map((e) => ({ act: e.act, to: d.g.nodes[e.to] })) });
          const onPaths = new Set(); for (const p of paths) for (const e of p) onPaths.add(e.orig ?? e.i);
          const edgesCovered = onPaths.size;
          info.consecutive_steps_covered = d.depth;
          const procs = paths.length < 60 || model.serial ? 0 : Math.min(6, Math.max(1, cpus().length - 1));
          const judge = (i, mm) => {
            n++; st += paths[i].length;
            if (mm) { const it = toItem(paths[i], i); if (record(model.name, it.init, it.path, mm) === "violation") bad++; }
          };
          if (procs === 0) {
            for (let i = 0; i < paths.length && bad < 3; i++) {
              if (Date.now() - t0 > budgetMs) { info.cut_off_after_budget = true; break; }
              const it = toItem(paths[i], i);
              judge(i, await replayPath(driver, it.init, it.path, { seed }));
            }
          } else {
            let next = 0; const results = [];
            const chunk = Math.max(1, Math.min(25, Math.ceil(paths.length / procs / 4)));
            const one = () => new Promise((done, fail) => {
              const c = fork(`${VERIF}bin/worker.mjs`, [id, model.name, tier, String(seed)], { serialization: "advanced", stdio: ["ignore", "ignore", "inherit", "ipc"] });
              let over = false;
              const feed = () => {
                if (next >= paths.length || bad >= 3 || Date.now() - t0 > budgetMs) {
                  if (next < paths.length && bad < 3) info.cut_off_after_budget = true;
                  if (!over) { over = true; c.send("end"); }
                  return;
                }
                const items = [];
                for (let k = 0; k < chunk && next < paths.length; k++, next++) items.push(toItem(paths[next], next));
                c.send(items);
              };
              c.on("message", (m) => { if (m !== "ready") { for (const [i, mm] of m) { results.push([i, mm]); if (mm && !known.length) bad++; } } feed(); });
              c.on("error", fail);
              c.on("exit", (code, sig) => (over ? done() : fail(new Error(`replay worker of ${model.name} ended early: ${code ?? sig}`))));
            });
            await Promise.all(Array.from({ length: procs }, one));
            bad = 0;
            results.sort((x, y) => x[0] - y[0]);
            for (const [i, mm] of results) judge(i, mm);
          }
          traces += n; steps += st; edgesTotal += g.edges.length; edgesCov += edgesCovered;
          Object.assign(info, { graph_edges: g.edges.length, edges_on_paths: edgesCovered, replayed: n, of_paths: paths.length, replayed_steps: st, replay_s: (Date.now() - r0) / 1000 });
          if (paths.length) { const sp = paths[Math.floor(paths.length * 0.8)]; samples.push({ model: model.name, init: d.g.nodes[sp[0].from], acts: sp.slice(0, 14).map((e) => e.act) }); }
        }
        perModel.push(info);
      }
      // trace validation: behaviours recorded from the real code, checked against the specification
      if (model.validate) {
        const v = await model.validate({ tier, seed, runTlc, makeCfg, outDir });
        states += v.states ?? 0; transitions += v.transitions ?? 0; traces += v.traces ?? 0;
        perModel.push({ model: model.name, validated_traces: v.traces, events: v.events, states: v.states });
        for (const bad of v.violations ?? []) record(model.name, bad.init ?? null, bad.path ?? [], bad.mismatch);
        if (v.sample) samples.push(v.sample);
      }
      if (driver?.close) await driver.close();
    } catch (e) { harnessError ??= e; console.error(`[${id}] ${model.name}: ${e && e.stack ? e.stack : e}`); }
  }

  const evidence = {
    property: id, tier, seed, level: check.level ?? "model_checking",
    coverage: {
      states, transitions, traces_validated_against_impl: traces, steps_replayed: steps, model_edges: edgesTotal, model_edges_on_replayed_paths: edgesCov,
      exhaustive: edgesTotal > 0 && edgesTotal === edgesCov && !perModel.some((m) => m.cut_off_after_budget),
      models: perModel, samples: samples.slice(0, 6),
    },
    assumptions: [...assumptions], wall_s: (Date.now() - t0) / 1000, violations: violations.length,
  };
  writeFileSync(`${VERIF}evidence/${id}.json`, JSON.stringify(evidence, null, 1) + "\n");
  for (const k of known) if (knownHits.has(k.key)) console.log(`KNOWN-FINDING: property=${id} ${k.summary}`);
  for (const m of perModel) console.log(`[${id}] ${JSON.stringify(m)}`);
  for (const v of violations.slice(0, 5)) {
    console.log(`[${id}] ${v.modelName}: after ${JSON.stringify(v.acts.slice(-8))}`);
    console.log(`[${id}]   ${v.mm.error ?? firstDiff(v.mm.expected, v.mm.actual) ?? "differs"}`);
    console.log(`VIOLATION property=${id} replay=${v.file}`);
  }
  if (violations.length) return 1;
  if (harnessError) return 2;
  if (traces === 0) { console.error(`[${id}] nothing was replayed`); return 2; }
  console.log(`[${id}] held: ${states} states, ${transitions} transitions, ${traces} traces replayed (${steps} steps), ${evidence.wall_s.toFixed(1)} s`);
  return 0;
}
