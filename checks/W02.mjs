import { mkdtempSync, rmSync, writeFileSync, readFileSync, existsSync, mkdirSync, readdirSync } from "node:fs";
import { tmpdir } from "node:os"; import { join } from "node:path";
import { bundle, REPO } from "../lib/bundle.mjs";
import { settle } from "../lib/clock.mjs";
import { pLimitModule } from "../harness/net.mjs";
import { track } from "../lib/util.mjs";

const M = "<redacted>";
const own = (pairs) => Object.fromEntries(pairs); // __proto__ included
const quiet = (f) => { const said = ["log", "warn", "error", "info"].map((k) => [k, console[k]]); for (const [k] of said) console[k] = () => {}; const back = () => { for (const [k, g] of said) console[k] = g; }; try { const r = f(); if (r?.then) return r.finally(back); back(); return r; } catch (e) { back(); throw e; } };
const walk = (d) => (existsSync(d) ? readdirSync(d, { recursive: true, withFileTypes: true }).filter((e) => !e.isDirectory()).map((e) => join(e.parentPath, e.name)).sort() : []);

// ---- documents
const LEAF = {
  pair: (s) => ({ name: "n", value: s, domain: "d.example" }), keypair: (s) => ({ value: s, key: "k" }), static: (s) => ({ name: "X", value: { type: "static", value: s }, requestTargets: ["all"] }),
  nothing: () => ({ name: "n", value: null }), text: (s) => s, number: () => 42, list: (s) => [s, 1], null: () => null, unnamed: (s) => ({ name: s }),
};
const leafFor = (leaf, secret, fate) => {
  const v = LEAF[leaf](secret);
  return fate === "value" ? { ...v, value: M } : fate === "inner" ? { ...v, value: { ...v.value, value: M } } : fate === "whole" ? M : fate === "entries" ? [M, M] : v;
};
const tree = (chain, leaf, secret, fate) => {
  if (!chain.length) return leafFor(leaf, secret, fate);
  const [k, ...rest] = chain;
  if (k === "[]") return [tree(rest, leaf, secret, fate), 7];
  return own([["first", "kept"], [k, tree(rest, leaf, secret, fate)], ["last", [null, { a: 1 }]]]);
};
// the redacted tree: an attribute's list is replaced entry by entry, a `value' of an entry as a whole
const redactedTree = (chain, leaf, secret, fate, key = "") => {
  if (fate === "kept" || fate === "value" || fate === "inner" || !chain.length) return tree(chain, leaf, secret, fate);
  const [k, ...rest] = chain; const attr = /^http[.]/.test(key);
  if (k === "[]" && fate === "property" && key === "customRequestHeaders" && rest[0] === "value" && rest[1] === "value") { const e = tree(rest, leaf, secret, "kept"); e.value.value = M; return [e, 7]; }
  if (k === "[]") return attr ? [M, M] : [fate === "property" && rest[0] === "value" && PAIRS(key) ? { first: "kept", value: M, last: [null, { a: 1 }] } : redactedTree(rest, leaf, secret, fate, ""), 7];
  return own([["first", "kept"], [k, redactedTree(rest, leaf, secret, fate, k)], ["last", [null, { a: 1 }]]]);
};
const PAIRS = (k) => /^(headers|cookies|local|session|state|extra|request|response)/.test(k);
const docDriver = (mod, root) => ({
  setup: () => ({}), step() {},
  doc: (m, f) => (root ? f(m.places[0], 0) : own(m.places.map((p, i) => [`p${i}`, f(p, i)]))),
  observe(s, m) {
    if (!m.places.length) return null;
    const d = this.doc(m, (p, i) => tree(p.chain, p.leaf, `SECRET${i}`, "kept")); const before = JSON.stringify(d);
    let r; try { r = JSON.stringify(mod.redactCookiesAndHeadersInJson(d, ...(root ? [root] : []))); } catch (e) { r = `threw ${e.message}`; }
    return { r, untouched: JSON.stringify(d) === before };
  },
  expect(m) { return m.places.length ? { r: JSON.stringify(this.doc(m, (p, i) => redactedTree(p.chain, p.leaf, `SECRET${i}`, m.fates[i], root ?? ""))), untouched: true } : null; },
});

// ---- files
const doc = { // with secrets, and without them
  cookies: (s) => [{ name: "sid", value: s("a"), domain: "x.example", httpOnly: true }, { name: "t", value: s("b") }],
  params: (s) => ({ session: { id: "s1", recordingToken: s("tok") }, replayExecutionOptions: { keep: "KEPT", extraCookies: [{ name: "c", value: s("c") }], customRequestHeaders: [{ name: "X-Auth", value: { type: "static", value: s("h") }, requestTargets: ["all"] }], extraLocalStorageEntries: [{ key: "k", value: s("l") }] }, localStorageEntries: [{ key: "jwt", value: s("j") }] }),
  timeline: (s) => [{ kind: "pollyReplay", virtualTimeStart: 1, data: { pollyRequest: { request: { method: "GET", url: "https://a.example/KEPT", headers: [{ name: "Cookie", value: s("e") }] } }, matchedRequest: { response: { status: 200, headers: [{ name: "set-cookie", value: s("f") }], cookies: [{ name: "q", value: s("g") }] } }, result: "matched" } },
    { kind: "passedThroughNetworkRequest", data: { request: { url: "https://b.example", headers: [{ name: "authorization", value: s("i") }] } } }, { kind: "screenshot", virtualTimeStart: 5, data: { identifier: { type: "after-event", eventNumber: 3 } } }],
  snapshots: (s) => [{ url: "https://KEPT.example", requestHeaders: [{ name: "cookie", value: s("m") }], responseHeaders: [{ name: "x", value: s("o") }] }],
  session: (s) => ({ recording_token: s("p"), hostname: "KEPT.example", cookies: [{ name: "c", value: s("q"), domain: "d" }], randomEvents: { localStorage: { state: [{ key: "auth", value: s("r") }] }, sessionStorage: { state: [{ key: "z", value: s("u") }] } },
    pollyHAR: { pollyRecordings: [{ name: "r", entries: [{ request: { method: "GET", url: "https://KEPT/x", headers: [{ name: "Cookie", value: s("v") }], cookies: [{ name: "w", value: s("w") }] }, response: { status: 200, headers: [{ name: "Set-Cookie", value: s("x") }] } }] }] },
    spans: [{ attributes: { "http.request.header.cookie": [s("y")], "http.response.header.set-cookie": [s("z"), s("1")], "http.route": "/KEPT" } }] }),
};
const log = (s, n) => ["starting KEPT", `Cookie: ${s(`l${n}`)}`, "Content-Length: 12", `using Bearer ${s(`m${n}`)}`].join("\n");
const place = (f, d, role) => ({ cookies: "cookies.json", params: "launchBrowserAndReplayParams.json", timeline: "timeline.json", snapshots: "custom-checks-snapshots/network-requests.json", ndjson: "timeline.ndjson", logs: "logs.deterministic.txt", concise: "logs.concise.txt", lognd: "logs.ndjson" })[f] ? join(d, "replays", role, `${role}1`, ({ cookies: "cookies.json", params: "launchBrowserAndReplayParams.json", timeline: "timeline.json", snapshots: "custom-checks-snapshots/network-requests.json", ndjson: "timeline.ndjson", logs: "logs.deterministic.txt", concise: "logs.concise.txt", lognd: "logs.ndjson" })[f]) : join(d, "sessions", `ses-${role}`, "data.json");
const ROLES = ["head", "base", "other"];
const lines = { good: (s) => doc.timeline(s).map((e) => JSON.stringify(e)), cutline: (s) => { const l = doc.timeline(s).map((e) => JSON.stringify(e)); l[1] = l[1].slice(0, -7); return l; }, blank: (s) => ["", ...doc.timeline(s).map((e) => JSON.stringify(e)), "  ", ""] };
const entries = (s) => [{ type: "log", source: "app", message: log(s, 1), n: 1 }, { type: "virtual-time-change", virtualTime: 100 }, { type: "log", message: log(s, 2) }, { type: "log", message: 12 }];
const content = (f, st, s) => {
  if (f in doc) { const t = JSON.stringify(doc[f](s)); return st === "good" ? t : st === "cut" ? t.slice(0, -5) : st === "empty" ? "" : "null"; }
  if (f === "ndjson" && st === "none") return lines.good(s).join("\n") + "\n"; if (f === "ndjson") return lines[st](s).join("\n");
  if (f === "lognd") { const l = entries(s).map((e) => JSON.stringify(e)); if (st === "cutline") l[0] = l[0].slice(0, -12); if (st === "nullline") l.splice(1, 0, "null"); if (st === "blank") l.splice(1, 0, "", " "); return l.join("\n"); }
  return st === "clean" ? "nothing here\nKEPT" : log(s, f);
};
const fileDriver = (inst, nRoles) => {
  const roles = ROLES.slice(0, nRoles);
  return {
    observeInit: false, setup() { const top = mkdtempSync(join(tmpdir(), "verif-w02-")); const dir = join(top, "ws"), tpl = join(top, "tpl"); mkdirSync(join(dir, "debug-data"), { recursive: true }); mkdirSync(tpl); writeFileSync(join(tpl, "CLAUDE.md"), "# read this"); return { top, tpl, dir, data: join(dir, "debug-data") }; },
    async step(s, act, to) {
      if (act.n === "put") for (const r of roles) { const p = place(act.f, s.data, r); mkdirSync(join(p, ".."), { recursive: true }); writeFileSync(p, content(act.f, act.s, (x) => `SECRET-${r}-${x}`)); }
      else {
        const mod = inst({ prettier: { format: async (x) => x }, "p-limit": pLimitModule }, { dirname: join(REPO, "packages/debug-workspace/src") });
        const ctx = { testRunId: "tr", replayDiffs: nRoles >= 2 ? [{ id: "rd", headReplayId: "head1", baseReplayId: "base1", sessionId: "ses-head", numScreenshotDiffs: 0 }] : [], replayIds: roles.map((r) => `${r}1`), sessionIds: roles.map((r) => `ses-${r}`), orgAndProject: "o/p" };
        const out = track(quiet(() => mod.generateDebugWorkspace({ client: {}, debugContext: ctx, workspaceDir: s.dir, projectRepoDir: undefined, additionalTemplatesDir: s.tpl })));
        for (let i = 0; i < 200 && out.state === "pending"; i++) await settle({ rounds: 2, io: true });
        if (out.state !== "ok") return `generating the workspace: ${out.state} ${out.error?.stack ?? ""}`;
        s.made = true;
      }
    },
    observe(s, m) {
      const at = (f, r) => { const p = place(f, s.data, r); if (!existsSync(p)) return "none"; const t = readFileSync(p, "utf8"); if (!m.runs) return "put";
        const want = m.left[f] === "redacted" ? expected(f, m.files[f]) : m.left[f] === "none" ? null : content(f, m.files[f], () => M);
        return same(f, t, want) ? m.left[f] : `left as ${t.slice(0, 300)}`; };
      return { files: Object.fromEntries(Object.keys(m.files).map((f) => [f, roles.map((r) => at(f, r)).join()])),
        leaks: m.runs ? walk(s.dir).filter((p) => readFileSync(p, "utf8").includes("SECRET")).map((p) => p.slice(s.dir.length)) : [], made: m.runs ? walk(join(s.dir, ".claude")).length > 0 : null };
    },
    expect(m) { return { files: Object.fromEntries(Object.keys(m.files).map((f) => [f, roles.map(() => (m.runs || m.files[f] === "none" ? m.left[f] : "put")).join()])), leaks: [], made: m.runs ? true : null }; },
    teardown(s) { rmSync(s.top, { recursive: true, force: true }); },
  };
};
// what a redacted file holds: the same document with the marker; of a cut line nothing may be left but that there was one
const redLog = (t) => t.replace(/Cookie: .*/g, `Cookie: ${M}`).replace(/Bearer .*/g, `Bearer ${M}`);
const expected = (f, st) => { const c = content(f, st === "cutline" ? "good" : st, () => M); return f === "lognd" || f === "logs" || f === "concise" ? c : c; };
const parseAll = (t) => t.split("\n").map((l) => { try { return JSON.stringify(JSON.parse(l)); } catch { return l.trim() === "" ? "" : "?"; } });
const same = (f, t, want) => {
  if (want === null) return false;
  if (f in doc) { try { return JSON.stringify(JSON.parse(t)) === JSON.stringify(JSON.parse(want)); } catch { return false; } }
  if (f === "ndjson" || f === "lognd") { const a = parseAll(t), b = parseAll(want); return a.length === b.length && a.every((x, i) => x === b[i] || ((f === "ndjson" ? i === 1 : i === 0) && !a[i].includes("SECRET") && !(x.startsWith("{")))); }
  return t === want;
};

// ---- logs
const FORMS = {
  plain: ["Cookie: SECRET; other=1", `Cookie: ${M}`], lower: ["got authorization : SECRET", `got authorization : ${M}`], inline: ["GET /x -> X-Csrf-Token: SECRET (200)", `GET /x -> X-Csrf-Token: ${M}`],
  proxy: ["proxy-authorization:SECRET", `proxy-authorization:${M}`], object: ['headers {"Set-Cookie": "SECRET", "x": 1}', `headers {"Set-Cookie": ${M}`], inspected: ["{ 'x-api-key': 'SECRET' }", `{ 'x-api-key': ${M}`],
  har: ['{"name":"X-Auth-Token","value":"SECRET"},{"name":"Accept","value":"*/*"}', `{"name":"X-Auth-Token","value":"${M}"},{"name":"Accept","value":"*/*"}`],
  escaped: ['{"name":"Cookie","value":"a=\\"SECRET\\"; it\'s"} KEPT', `{"name":"Cookie","value":"${M}"} KEPT`], quote: ["{ name: 'Set-Cookie', value: 'x=\"SECRET\"' }", `{ name: 'Set-Cookie', value: '${M}' }`],
  pretty: ['{\n  "name": "authorization",\n  "value": "SECRET"\n}', `{\n  "name": "authorization",\n  "value": "${M}"\n}`], rich: ["{ name: 'cookie', path: '/', httpOnly: true, value: 'SECRET', x: 'KEPT' }", `{ name: 'cookie', path: '/', httpOnly: true, value: '${M}', x: 'KEPT' }`],
  bearer: ["sending Bearer SECRET.abc-1_2~+/x== KEPT", `sending Bearer ${M} KEPT`], basic: ["with Basic SECRETabc+/9= KEPT", `with Basic ${M} KEPT`],
  length: ["Content-Length: 1234"], prose: ["The cookies and the authorization were fine, cookie by cookie."], other: ['{"name":"Accept-Language","value":"en"} at 12:30:45'], near: ["x-cookies: 3, CookieJar: KEPT"], blank: [""],
};
const both = (said, i) => said.map((f) => FORMS[f][i] ?? FORMS[f][0]);
const logDriver = (mod) => ({
  observeInit: false, setup() { const dir = mkdtempSync(join(tmpdir(), "verif-w02-")); return { dir }; }, step() {},
  observe(s, m) {
    const d = join(s.dir, "debug-data/replays/other/r"); mkdirSync(d, { recursive: true }); const raw = both(m.said, 0), text = raw.join("\n");
    const nd = raw.map((message, i) => JSON.stringify({ message, i })); const cut = raw.map((x) => `{"message": broken ${x.split("\n").join(" ")}`);
    writeFileSync(join(d, "logs.deterministic.txt"), text); writeFileSync(join(d, "logs.concise.txt"), text); writeFileSync(join(d, "logs.ndjson"), [...nd, "null", ...cut].join("\n"));
    let error = null; try { quiet(() => mod.generateFilteredLogs(s.dir)); } catch (e) { error = String(e); }
    const rd = (f) => readFileSync(join(d, f), "utf8"); const l = rd("logs.ndjson").split("\n");
    return { error, text: mod.redactLogCredentials(text), deterministic: rd("logs.deterministic.txt"), concise: rd("logs.concise.txt"), nd: l.slice(0, nd.length), rest: l.length, cutLeaks: l.slice(nd.length).some((x) => x.includes("SECRET")),
      filteredLeaks: rd("logs.deterministic.filtered.txt").includes("SECRET"), kept: (rd("logs.deterministic.filtered.txt").match(/Content-Length: 1234/g) ?? []).length };
  },
  expect(m) {
    const t = both(m.said, 1).join("\n");
    return { error: null, text: t, deterministic: t, concise: t, nd: both(m.said, 1).map((message, i) => JSON.stringify({ message, i })), rest: 2 * m.said.length + 1, cutLeaks: false, filteredLeaks: false, kept: m.said.filter((f) => f === "length").length };
  },
  teardown(s) { rmSync(s.dir, { recursive: true, force: true }); },
});
const set = (...a) => `{${a.map((x) => (typeof x === "string" ? `"${x}"` : x)).join(", ")}}`;
const G = "debug-workspace/src/generate-debug-workspace.ts";
const NAMES = ["headers", "cookies", "localStorageEntries", "sessionStorageEntries", "extraCookies", "extraLocalStorageEntries", "extraSessionStorageEntries", "requestHeaders", "responseHeaders", "state", "localStorage", "sessionStorage", "recordingToken", "recording_token", "http.request.header.cookie", "http.request.header.x.Key_1~", "http.response.header.set-cookie", "customRequestHeaders", "__proto__", "Headers", "value", "[]"];
const LEAVES = ["pair", "keypair", "static", "nothing", "text", "number", "list", "null", "unnamed"];
const ALLF = ["cookies", "params", "timeline", "snapshots", "session", "ndjson", "logs", "concise", "lognd"];
export default {
  property: "W02",
  assumptions: ["documents are built from the documented representations; formatting (prettier) is replaced by a double"],
  models: [
    ...["", "cookies"].map((root) => ({
      name: root ? "rooted" : "documents", spec: "WorkspaceDoc", driver: async () => docDriver((await bundle(G))(), root || undefined),
      runs: ({ tier }) => {
        const t = tier === "thorough"; const w = (n) => ({ maxPaths: t ? 100000 : n, walks: 0 });
        const C = (c) => ({ cfg: { constants: { Root: `"${root}"`, MaxPlaces: 1, ...c }, invariants: ["NoPairSurvives", "Harmless"] } });
        return root ? [{ name: "cookies", ...C({ Names: set("[]", "headers", "value", "other"), Leaves: set(...LEAVES), Depths: set(1, 2, 3) }), ...w(1000) }]
          : [{ name: "all", ...C({ Names: set(...NAMES), Leaves: set(...LEAVES), Depths: set(0, 1, 2) }), ...w(5000) },
            { name: "deep", ...C({ Names: set("headers", "cookies", "state", "localStorage", "customRequestHeaders", "http.request.header.cookie", "value", "[]"), Leaves: set("pair", "static", "text"), Depths: t ? set(3, 4, 5) : set(3, 4) }), ...w(14000) },
            { name: "two", ...C({ Names: set("headers", "state", "sessionStorage", "[]"), Leaves: set("pair", "text"), Depths: set(2, 3), MaxPlaces: 2 }), ...w(3000) }];
      },
    })),
    ...[1, 2, 3].map((n) => ({
      name: `files${n}`, spec: "WorkspaceFiles", driver: async () => fileDriver(await bundle(G), n),
      runs: ({ tier }) => {
        const t = tier === "thorough";
        return [{ name: "all", cfg: { constants: { Files: set(...ALLF), States: set("good", ...(n === 2 ? [] : ["cut", "empty", "null", "cutline", "nullline", "blank", "clean"])), MaxFiles: n === 2 ? (t ? 9 : 3) : t ? 3 : n === 1 ? 2 : 1, MaxRuns: 2 }, invariants: ["NothingLeft", "GoodIsKept"], properties: ["OnceIsEnough"] }, maxPaths: t ? 4000 : 400, walks: t ? 400 : 40 }];
      },
    })),
    { name: "logs", spec: "LogText", driver: async () => logDriver((await bundle(G))()),
      runs: ({ tier }) => [{ name: "forms", cfg: { constants: { Forms: set(...Object.keys(FORMS)), MaxSaid: tier === "thorough" ? 3 : 2 }, properties: ["Grows"] }, maxPaths: 6000, walks: 0 }] },
  ],
};
