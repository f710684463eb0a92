import { mkdtempSync, rmSync, writeFileSync, readFileSync, existsSync, mkdirSync, readdirSync } from "node:fs";
import { tmpdir } from "node:os"; import { join } from "node:path";
import { bundle } from "../lib/bundle.mjs";
import { settle } from "../lib/clock.mjs";
import { track, deferred } from "../lib/util.mjs";
import { pLimitModule } from "../harness/net.mjs";

const chalk = new Proxy((x) => x, { get: () => chalk });
// identifiers, and the names they have on the disk and at the server, stated independently of the code
const NAMES = [
  [{ type: "after-event", eventNumber: 3, logicVersion: 2 }, "screenshot-after-event-00003-v2", "after-event-3"],
  [{ type: "end-state" }, "final-state", "end-state"],
  [{ type: "auxiliary", eventNumber: 0, sequenceNumber: 12, reason: "pre-click", endState: true, logicVersion: 5 }, "screenshot-auxiliary-00000-end-00012-pre-click-v5", "auxiliary-0-12-pre-click"],
  [{ type: "after-event", eventNumber: 123456, logicVersion: null }, "screenshot-after-event-123456", "after-event-123456"],
  [{ type: "auxiliary", eventNumber: 7, sequenceNumber: 0, reason: "scroll" }, "screenshot-auxiliary-00007-00000-scroll", "auxiliary-7-0-scroll"],
  [{ type: "end-state", logicVersion: 0 }, "final-state-v0", "end-state"],
  [{ type: "after-event", eventNumber: 0 }, "screenshot-after-event-00000", "after-event-0"],
];
const nameOf = (p, i) => (i < NAMES.length ? NAMES[(i + p) % NAMES.length] : [{ type: "after-event", eventNumber: 100 + i }, `screenshot-after-event-00${100 + i}`, `after-event-${100 + i}`]);
const BAD = ["../../up", "a/b", "a\\b", "x\0y", "/../.."];
const entry = (kind, p, i) => {
  const [identifier] = nameOf(p, i);
  const o = { diff: "diff", flake: "flake", size: "different-size", new: "some-new-outcome", none: undefined, nodiff: "no-diff", mbase: "missing-base", mhead: "missing-head", mboth: "missing-base-and-head" }[kind];
  return kind === "null" ? null : kind === "text" ? "text" : kind === "noid" ? { outcome: "diff" } : kind === "unknown" ? { identifier: { type: "hovering", eventNumber: 1 }, outcome: "diff" }
    : /^bad/.test(kind) ? { identifier: { type: "auxiliary", eventNumber: 1, sequenceNumber: 1, reason: BAD[+(/\d/.exec(kind)?.[0] ?? 0)] }, outcome: "diff" }
    : kind === "variant" ? { identifier: { ...identifier, variant: "mobile" }, outcome: "diff" } : kind === "redact" ? { identifier: { ...identifier, variant: "redacted" }, outcome: "diff" } : kind === "redactsame" ? { identifier: { ...identifier, variant: "redacted" }, outcome: "no-diff" }
    : { identifier, outcome: o, mismatchFraction: 0.1 };
};
const URLS = [null, "https://app.example/head", "https://app.example/base", "https://app.example/head", null];
const base = (p, i, kind) => nameOf(p, i)[1] + (kind?.startsWith("redact") ? ".redacted" : "");
const CONTENT = (p, i, a) => (a === "many" ? [`--- a\n+++ b\n@@ first ${p}.${i} \u2713\n-x\n+y\n`, "@@ second hunk", ""] : [`@@ ${p}.${i} ${"größer".repeat(i * 300)}`]);
const walk = (d) => (existsSync(d) ? readdirSync(d, { recursive: true, withFileTypes: true }).filter((e) => !e.isDirectory()).map((e) => join(e.parentPath, e.name)).sort() : []);

const driver = (mod, max) => ({
  setup(init) {
    const s = { init, calls: [], dir: mkdtempSync(join(tmpdir(), "verif-w01-")), said: [] };
    s.ws = join(s.dir, "ws"); s.data = join(s.ws, "debug-data"); s.dd = join(s.data, "dom-diffs"); mkdirSync(join(s.data, "diffs"), { recursive: true });
    writeFileSync(join(s.dir, "outside"), "x");
    s.pairs = init.pairs.map((p, n) => ({ id: `rd${n}`, headReplayId: p.file === "unsafe" ? ["..", "a/b"][n % 2] + "/x" : `head${n}`, baseReplayId: `base${n}`, numScreenshotDiffs: 1 }));
    s.labels = s.pairs.map((p) => `${p.headReplayId}-vs-${p.baseReplayId}`);
    init.pairs.forEach((p, n) => {
      const list = p.shots.map((k, i) => entry(k, n, i)); const f = join(s.data, "diffs", `rd${n}.json`);
      if (p.file === "ok" || p.file === "unsafe") writeFileSync(f, JSON.stringify({ id: `rd${n}`, data: { screenshotDiffResults: list } }));
      else if (p.file === "cut") writeFileSync(f, JSON.stringify({ data: { screenshotDiffResults: list } }).slice(0, -4));
      else if (p.file === "notlist") writeFileSync(f, JSON.stringify({ data: { screenshotDiffResults: { 0: list[0] } } }));
      else if (p.file === "nulldoc") writeFileSync(f, "null");
      if (p.file === "ok") p.shots.forEach((k, i) => {
        const put = (role, id, doc) => { const d = join(s.data, "replays", role, id, "screenshots"); mkdirSync(d, { recursive: true }); writeFileSync(join(d, `${base(n, i, k)}.metadata.json`), typeof doc === "string" ? doc : JSON.stringify(doc)); };
        const m = (n + i) % 5; const doc = (u) => ({ before: { routeData: { url: u } } });
        if (m === 1 || m === 3) put("head", `head${n}`, doc("https://app.example/head"));
        if (m === 2 || m === 3) put("base", `base${n}`, doc("https://app.example/base"));
        if (m === 4) put("head", `head${n}`, ["{", "null", "{}"][i % 3]);
      });
    });
    for (const k of ["log", "warn", "error", "info"]) { s.said.push([k, console[k]]); console[k] = () => {}; }
    return s;
  },
  async step(s, act, to, from) {
    if (act.n === "begin") {
      s.client = { c: 1 };
      s.out = track((async () => mod.fetchDomDiffs({ client: s.client, workspaceDir: s.ws, debugContext: { replayDiffs: s.pairs, replayIds: [], sessionIds: [] }, ...(max ? { maxConcurrency: max } : {}),
        fetchScreenshotDiff: (client, id, name, context) => { const d = deferred(); s.calls.push({ ok: client === s.client, key: [id, name, context ?? "hunks"].join(), d, open: true }); return d.promise; } }))());
    } else {
      const p = from.at - 1, i = act.i - 1, key = [`rd${p}`, nameOf(p, i)[2], act.n === "full" ? "full" : "hunks"].join();
      const c = s.calls.find((x) => x.open && x.key === key); if (!c) return `no request under way for ${key}`;
      c.open = false; const b = base(p, i);
      const ans = (cs) => c.d.resolve({ totalDiffs: cs.length + 4, diffs: cs.map((content, j) => ({ content, index: j })) });
      if (act.n === "answer") {
        if (act.a === "disk") mkdirSync(join(s.dd, `${s.labels[p]}-${b}.diff`), { recursive: true }); // it cannot be written
        ({ diff: () => ans(CONTENT(p, i, "diff")), many: () => ans(CONTENT(p, i, "many")), disk: () => ans(CONTENT(p, i, "diff")), zero: () => c.d.resolve({ totalDiffs: 0, diffs: [{ content: "nothing" }] }), empty: () => c.d.resolve({ totalDiffs: 3, diffs: [] }),
          fail: () => c.d.reject(new Error("404")), text: () => c.d.reject("gone"), junk: () => c.d.resolve({ message: "what?" }), null: () => c.d.resolve(null) })[act.a]();
        (s.kinds ??= {})[`${p}.${i}`] = act.a;
      } else {
        if (act.a === "disk") mkdirSync(join(s.dd, `${s.labels[p]}-${b}.full.diff`), { recursive: true });
        if (act.a === "fail") c.d.reject(new Error("timeout")); else if (act.a === "junk") c.d.resolve({}); else ans([`whole file of ${p}.${i}\n`, "other file é"]);
      }
    }
    await settle({ rounds: 4 });
  },
  observe(s, to) {
    const over = to.at === to.pairs.length + 1; const v = s.out?.value;
    const rd = (f) => { try { return readFileSync(f, "utf8"); } catch { return null; } };
    return { state: s.out?.state ?? "none", open: s.calls.filter((c) => c.open).map((c) => c.key + (c.ok ? "" : "?")).sort(), calls: s.calls.length,
      error: s.out?.state === "error" ? String(s.out.error?.message ?? s.out.error) : null,
      map: over && v ? Object.fromEntries(Object.entries(v).sort().map(([k, e]) => [k, { ...e, diff: e.diffPath && rd(join(s.data, e.diffPath)), full: e.fullDiffPath && rd(join(s.data, e.fullDiffPath)) }])) : null,
      files: over ? walk(s.dir).filter((f) => !/[/](diffs|replays)[/]/.test(f)).map((f) => f.slice(s.dir.length + 1)) : null,
      summaries: over ? Object.fromEntries(s.labels.map((l, p) => [p, s.init.pairs[p].file === "unsafe" ? null : rd(join(s.dd, `${l}.summary.txt`))]).filter((x) => x[1] !== null).map(([p, t]) => [p, parse(t)])) : null };
  },
  expect(m, act, s) {
    const over = m.at === m.pairs.length + 1; const open = []; let calls = 0;
    const map = {}, files = ["outside"], sums = {};
    m.out.forEach((o, p) => {
      const rows = [];
      o.forEach((x, i) => {
        const [, , name] = nameOf(p, i); const kind = m.pairs[p].shots[i], b = base(p, i, kind); const a = s.kinds?.[`${p}.${i}`];
        if (x === "req") open.push([`rd${p}`, name, "hunks"].join()); if (x === "full") open.push([`rd${p}`, name, "full"].join());
        if (["req"].includes(x) || (a && !["diff", "diffonly", "full"].includes(x))) calls += 1; if (["full", "diff", "diffonly"].includes(x)) calls += 2;
        if (x === "ignored") return;
        const url = URLS[(p + i) % 5]; let bytes = 0, hunks = 0;
        if (x === "diff" || x === "diffonly") {
          const cs = CONTENT(p, i, a), body = cs.join("\n\n"); bytes = Buffer.byteLength(body); hunks = cs.length + 4; const f = `${s.labels[p]}-${b}`;
          map[`${s.labels[p]}/${b}`] = { diffPath: `dom-diffs/${f}.diff`, fullDiffPath: x === "diff" ? `dom-diffs/${f}.full.diff` : null, totalHunks: hunks, bytes, url, diff: body, full: x === "diff" ? `whole file of ${p}.${i}\n\n\nother file é` : null };
          files.push(`ws/debug-data/dom-diffs/${f}.diff`); if (x === "diff") files.push(`ws/debug-data/dom-diffs/${f}.full.diff`);
        }
        rows.push([b, x === "diffonly" ? "diff" : x, String(hunks), bytes === 0 ? "0" : bytes < 1024 ? `${bytes}` : `${(bytes / 1024).toFixed(1)}k`, url ?? ""].join("|"));
      });
      if (rows.length) { const n = (...k) => rows.filter((r) => k.includes(r.split("|")[1])).length; files.push(`ws/debug-data/dom-diffs/${s.labels[p]}.summary.txt`);
        sums[p] = { ids: [`head${p}`, `base${p}`], n: [rows.length, n("diff"), n("identical"), n("only-in-head"), n("only-in-base"), n("skipped-error"), n("skipped-unsupported")], rows }; }
    });
    return { state: m.at === 0 ? "none" : over ? "ok" : "pending", open: open.sort(), calls, error: null,
      map: over ? Object.fromEntries(Object.entries(map).sort()) : null, files: over ? files.sort() : null, summaries: over ? sums : null };
  },
  async finish(s, m) { await settle({ rounds: 4 }); if (m.at === m.pairs.length + 1 && s.calls.some((c) => c.open)) return "a request after the end"; },
  async teardown(s) { for (let n = 0; n < 30 && s.out?.state === "pending"; n++) { for (const c of s.calls) { c.open = false; c.d.reject(new Error("over")); } await settle({ rounds: 2 }); } for (const [k, f] of s.said) console[k] = f; rmSync(s.dir, { recursive: true, force: true }); },
});
/** What a summary says, whatever its layout around it. */
const parse = (t) => {
  const num = (re) => +(re.exec(t)?.[1] ?? 0);
  return { ids: [/HEAD replay: (.*)/.exec(t)?.[1], /BASE replay: (.*)/.exec(t)?.[1]],
    n: [num(/Screenshots analyzed: (\d+)/), num(/with DOM diff: (\d+)/), num(/identical DOM: (\d+)/), num(/only in HEAD:\s+(\d+)/), num(/only in BASE:\s+(\d+)/), num(/skipped \(API error\): (\d+)/), num(/skipped \(unsupported identifier\): (\d+)/)],
    rows: t.split("\n").filter((l) => l.includes("\t") && !l.startsWith("screenshot\t")).map((l) => l.split("\t").join("|")) };
};
const set = (...a) => `{${a.map((x) => (typeof x === "string" ? `"${x}"` : x)).join(", ")}}`;
const INV = { invariants: ["Bound", "NoIdleRoom", "EveryOneHasAnOutcome", "InTurn"], properties: ["OutcomeIsFinal"] };
const ALL = ["diff", "flake", "size", "new", "none", "nodiff", "redact", "redactsame", "mbase", "mhead", "mboth", "noid", "null", "text", "badname", "unknown", "variant", "bad0", "bad1", "bad2", "bad3", "bad4"];
const ANS = set("diff", "many", "zero", "empty", "fail", "text", "junk", "disk", "null"), FULL = set("ok", "fail", "junk", "disk");
export default {
  property: "W01",
  assumptions: ["the DOM diff request is replaced by a double through the option meant for it; files are real"],
  models: [1, 2, 0].map((max) => ({
    name: `max${max || "default"}`, spec: "DomDiffs",
    driver: async () => driver(await bundle("debug-workspace/src/fetch-dom-diffs.ts").then((i) => i({ chalk: { __esModule: true, default: chalk }, "p-limit": pLimitModule })), max),
    runs: ({ tier }) => {
      const t = tier === "thorough"; const w = { maxPaths: t ? 40000 : 3500, walks: t ? 3000 : 200 };
      const C = (c) => ({ cfg: { constants: { Max: max || 8, Answers: ANS, Fulls: FULL, InOrder: "FALSE", Files: set("ok"), ...c }, ...INV }, ...w });
      return max === 0 ? [
        { name: "kinds", ...C({ Kinds: set(...ALL), Lens: set(2), NP: 1, Answers: set("diff", "fail"), Fulls: set("ok") }) },
        { name: "ten", ...C({ Kinds: set("diff"), Lens: set(10), NP: 1, Answers: set("many", "junk"), Fulls: set("ok"), InOrder: "TRUE" }) },
      ] : max === 1 ? [
        { name: "documents", ...C({ Kinds: set("nodiff", "diff"), Files: set("ok", "none", "cut", "notlist", "nulldoc", "unsafe"), Lens: set(0, 1), NP: t ? 3 : 2, Answers: set("diff", "disk"), Fulls: set("ok", "disk") }) },
        { name: "answers", ...C({ Kinds: set("size"), Lens: set(2), NP: 1 }) },
      ] : [
        { name: "answers", ...C({ Kinds: set("flake"), Lens: set(2), NP: 1 }) },
        { name: "orders", ...C({ Kinds: set("diff", "mhead"), Lens: set(t ? 4 : 3), NP: 1, Answers: set("diff", "zero", "fail"), Fulls: set("ok", "fail") }) },
        { name: "mixed", ...C({ Kinds: set("diff", "nodiff", "null", "badname"), Lens: set(1, 2), NP: 2, Answers: set("diff", "junk"), Fulls: set("ok"), InOrder: "TRUE" }) },
      ];
    },
  })),
};
