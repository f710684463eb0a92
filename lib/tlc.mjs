// Runs TLC on a specification in /verif/specs and parses what it prints.
//
// Conventions of the specifications (see DESIGN.md, "How the binding works"):
//   act   a variable holding the last environment step as a record (excluded from View)
//   Rec   the record of all other variables (the model state)
//   Emit  an ACTION_CONSTRAINT that prints <<Rec, act', Rec', level>> as JSON for every transition
import { spawn } from "node:child_process";
import { createInterface } from "node:readline";
import { mkdtempSync, rmSync, writeFileSync, existsSync } from "node:fs";
import { tmpdir } from "node:os";
import { join } from "node:path";

const JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar";
export const SPECS = new URL("../specs/", import.meta.url).pathname;

/** cfg: text of the TLC configuration. Returns {states, distinct, transitions, edges:[[from,act,to,level]], ok, log} */
export async function runTlc({ spec, cfg, workers = 4, heap = "6g", extraArgs = [], timeoutMs = 800_000, emit = true, onEdge }) {
  const scratch = mkdtempSync(join(tmpdir(), "verif-tlc-"));
  try {
    const cfgPath = join(scratch, `${spec}.cfg`);
    writeFileSync(cfgPath, cfg);
    const args = [
      "-XX:+UseParallelGC", `-Xmx${heap}`, `-Djava.io.tmpdir=${scratch}`,
      `-DTLA-Library=${SPECS}`, "-cp", JAR, "tlc2.TLC",
      "-config", cfgPath, "-metadir", join(scratch, "meta"), "-workers", String(workers),
      "-noGenerateSpecTE", ...extraArgs, join(SPECS, `${spec}.tla`),
    ];
    const child = spawn("java", args, { cwd: scratch, stdio: ["ignore", "pipe", "pipe"] });
    const timer = setTimeout(() => child.kill("SIGKILL"), timeoutMs);
    const log = [];
    const edges = [];
    let err = "";
    child.stderr.on("data", (d) => { err += d; });
    const rl = createInterface({ input: child.stdout });
    const PFX = '"@@';
    rl.on("line", (line) => {
      if (line.startsWith(PFX)) {
        const e = JSON.parse(JSON.parse(line).slice(2));
        if (onEdge) onEdge(e); else edges.push(e);
      } else log.push(line);
    });
    const code = await new Promise((res, rej) => {
      let exit; let closed = false;
      child.on("error", rej);
      child.on("exit", (c, s) => { exit = c ?? s; });
      rl.on("close", () => { closed = true; });
      child.on("close", (c, s) => { const done = () => (closed ? res(c ?? s) : setImmediate(done)); done(); });
    });
    clearTimeout(timer);
    const text = log.join("\n");
    const m = /(\d+) states generated, (\d+) distinct states found/.exec(text.split("\n").filter((l) => /distinct states found/.test(l)).pop() ?? "");
    const ok = code === 0 && /No error has been found/.test(text);
    return { ok, code, generated: m ? +m[1] : 0, distinct: m ? +m[2] : 0, edges, log: text + (err ? "\nSTDERR\n" + err : "") };
  } finally {
    rmSync(scratch, { recursive: true, force: true });
  }
}

/** Builds the configuration text. */
export function makeCfg({ constants = {}, invariants = [], properties = [], emit = true, spec, init = "Init", next = "Next", view = "View", symmetry, constraint, deadlock = false, postcondition }) {
  const l = [];
  if (spec) l.push(`SPECIFICATION ${spec}`);
  else l.push(`INIT ${init}`, `NEXT ${next}`);
  for (const [k, v] of Object.entries(constants)) l.push(`CONSTANT ${k} = ${v}`);
  for (const i of invariants) l.push(`INVARIANT ${i}`);
  for (const i of properties) l.push(`PROPERTY ${i}`);
  if (view && emit) l.push(`VIEW ${view}`);
  if (emit) l.push("ACTION_CONSTRAINT Emit");
  if (constraint) l.push(`CONSTRAINT ${constraint}`);
  if (postcondition) l.push(`POSTCONDITION ${postcondition}`);
  l.push(`CHECK_DEADLOCK ${deadlock ? "TRUE" : "FALSE"}`);
  return l.join("\n") + "\n";
}

const sorted = (v) => {
  if (v === null || typeof v !== "object") return v;
  if (Array.isArray(v)) return v.map(sorted);
  const o = {};
  for (const k of Object.keys(v).sort()) o[k] = sorted(v[k]);
  return o;
};
/** The explored graph: nodes by canonical JSON (TLC prints the fields of one record in different orders). */
export function makeGraph(edges) {
  const ids = new Map(); const nodes = []; const out = []; const inits = new Set();
  const id = (s) => {
    const k = JSON.stringify(s);
    let i = ids.get(k);
    if (i === undefined) { i = nodes.length; ids.set(k, i); nodes.push(s); out.push([]); }
    return i;
  };
  const raw = edges.map(([f, a, t, lvl]) => { [f, a, t] = sorted([f, a, t]); return { f, a, t, lvl, k: JSON.stringify([f, a, t]) }; });
  raw.sort((x, y) => (x.k < y.k ? -1 : x.k > y.k ? 1 : 0));
  const list = []; let last;
  for (const r of raw) {
    if (r.k === last) { if (r.lvl === 1) inits.add(id(r.f)); continue; }
    last = r.k;
    const from = id(r.f), to = id(r.t);
    if (r.lvl === 1) inits.add(from);
    const e = { i: list.length, from, to, act: r.a };
    list.push(e); out[from].push(e);
  }
  return { nodes, out, edges: list, inits: [...inits].sort((a, b) => a - b) };
}

export function rng(seed) {
  let a = (seed * 0x9e3779b9 + 0x7f4a7c15) >>> 0;
  return () => {
    a = (a + 0x6d2b79f5) >>> 0;
    let t = Math.imul(a ^ (a >>> 15), a | 1);
    t ^= t + Math.imul(t ^ (t >>> 7), t | 61);
    return ((t ^ (t >>> 14)) >>> 0) / 4294967296;
  };
}

/** Paths from an initial node that together cover every edge (edge order shuffled by seed), then `walks` random walks. */
export function coverPaths(g, { seed = 1, walks = 0, maxLen = 60, maxPaths = Infinity, extend = true } = {}) {
  const rand = rng(seed);
  const pred = new Array(g.nodes.length).fill(undefined);
  const depth = new Array(g.nodes.length).fill(-1);
  const q = [...g.inits];
  for (const i of q) { depth[i] = 0; pred[i] = null; }
  for (let h = 0; h < q.length; h++) {
    for (const e of g.out[q[h]]) if (depth[e.to] < 0) { depth[e.to] = depth[q[h]] + 1; pred[e.to] = e; q.push(e.to); }
  }
  const prefix = (n) => { const p = []; for (let e = pred[n]; e; e = pred[e.from]) p.push(e); return p.reverse(); };
  const covered = new Uint8Array(g.edges.length);
  const order = [...g.edges];
  for (let i = order.length - 1; i > 0; i--) { const j = Math.floor(rand() * (i + 1)); [order[i], order[j]] = [order[j], order[i]]; }
  order.sort((a, b) => depth[b.from] - depth[a.from]); // deepest first: their prefixes cover the shallow ones
  const nextUncovered = g.out.map(() => 0);
  const paths = [];
  let nCovered = 0;
  const mark = (e) => { if (!covered[e.i]) { covered[e.i] = 1; nCovered++; } };
  for (const e of order) {
    if (paths.length >= maxPaths) break;
    if (covered[e.i] || depth[e.from] < 0) continue;
    const path = [...prefix(e.from), e];
    path.forEach(mark);
    let n = e.to;
    while (extend && path.length < maxLen) {
      const outs = g.out[n];
      while (nextUncovered[n] < outs.length && covered[outs[nextUncovered[n]].i]) nextUncovered[n]++;
      if (nextUncovered[n] >= outs.length) break;
      const x = outs[nextUncovered[n]];
      path.push(x); mark(x); n = x.to;
    }
    paths.push(path);
  }
  for (let w = 0; w < walks; w++) {
    let n = g.inits[Math.floor(rand() * g.inits.length)];
    const path = [];
    while (path.length < maxLen && g.out[n].length) {
      const x = g.out[n][Math.floor(rand() * g.out[n].length)];
      path.push(x); mark(x); n = x.to;
    }
    if (path.length) paths.push(path);
  }
  paths.sort((a, b) => a.length - b.length);
  return { paths, edgesCovered: nCovered };
}

/**
 * The line graph: one node per transition, one edge per pair of consecutive transitions. Covering it exercises every
 * transition after each of the transitions that can precede it, so that two histories which lead to the same model
 * state are both continued in every way (the implementation's hidden state may differ).
 */
export function lineGraph(g) {
  const nodes = []; const out = []; const edges = []; const first = new Array(g.edges.length);
  const node = (n) => { nodes.push(n); out.push([]); return nodes.length - 1; };
  const inits = [];
  for (const e of g.edges) first[e.i] = node(g.nodes[e.to]);
  const add = (from, e) => { const x = { i: edges.length, from, to: first[e.i], act: e.act, orig: e.orig ?? e.i }; edges.push(x); out[from].push(x); };
  for (const i of g.inits) { const k = node(g.nodes[i]); inits.push(k); for (const e of g.out[i]) add(k, e); }
  for (const e of g.edges) for (const f of g.out[e.to]) add(first[e.i], f);
  return { nodes, out, edges, inits };
}
/** Deepens the graph as long as the result has at most `limit` edges. Returns the graph and how many consecutive steps it covers. */
export function deepen(g, limit, max = 5) {
  let depth = 1;
  while (depth < max) {
    let n = 0;
    for (const i of g.inits) n += g.out[i].length;
    for (const e of g.edges) n += g.out[e.to].length;
    if (n > limit || n <= g.edges.length) break;
    g = lineGraph(g); depth++;
  }
  return { g, depth };
}
