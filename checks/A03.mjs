import { mkdtempSync, rmSync, writeFileSync, readFileSync, existsSync, statSync, unlinkSync } from "node:fs";
import cp from "node:child_process";
import { tmpdir } from "node:os"; import { join } from "node:path";
import { bundle } from "../lib/bundle.mjs";
import { FakeClock, settle } from "../lib/clock.mjs";
import { track } from "../lib/util.mjs";
import { Net } from "../harness/net.mjs";
import { ISSUER, TOKEN, visit, browser, loginUrl, redeems, until } from "../harness/login.mjs";

const env = (k, v) => { if (v === undefined || v === null) delete process.env[k]; else process.env[k] = v; };
const KEYS = ["METICULOUS_DIR", "METICULOUS_API_TOKEN", "METICULOUS_API_URL", "CI"];
const base = async (inst) => {
  const s = { dir: mkdtempSync(join(tmpdir(), "verif-a03-")), opened: [], old: Object.fromEntries(KEYS.map((k) => [k, process.env[k]])), tty: Object.getOwnPropertyDescriptor(process.stdin, "isTTY") };
  for (const k of KEYS) env(k); env("METICULOUS_DIR", s.dir);
  s.file = join(s.dir, "oauth-tokens.json"); s.config = join(s.dir, "config.json"); s.legacy = join(s.dir, "selected-project.json");
  s.clock = new FakeClock().install(); await s.clock.advance((1000 - (Date.now() % 1000)) % 1000);
  s.net = new Net(); s.fetch = globalThis.fetch; globalThis.fetch = s.net.fetch;
  s.mod = inst({ ...s.net.doubles(), http: { ...s.net.doubles().http, createServer: (await import("node:http")).createServer, default: undefined }, child_process: { ...cp, ...browser(s.opened) }, open: { __esModule: true, default: async (u) => { s.opened.push(u); } } });
  return s;
};
const done = (s) => { s.clock.uninstall(); globalThis.fetch = s.fetch; for (const k of KEYS) env(k, s.old[k]); if (s.tty) Object.defineProperty(process.stdin, "isTTY", s.tty); else delete process.stdin.isTTY; rmSync(s.dir, { recursive: true, force: true }); };
const terminal = (t) => { Object.defineProperty(process.stdin, "isTTY", { value: t !== "none", configurable: true, writable: true }); env("CI", t === "ci" ? "true" : undefined); };
const now = () => Math.floor(Date.now() / 1000);

const credentials = (inst) => ({
  name: (k) => `oauth${k}`,
  store(s, l) { s.mod.storeOAuthTokens({ accessToken: this.name(l.k), refreshToken: `r${l.k}`, expiresAt: now() + (l.fresh ? 300 : 10) }); },
  observeInit: false, async setup(init) {
    const s = await base(inst); terminal(init.tty);
    if (init.env) env("METICULOUS_API_TOKEN", `env${init.env}`); else if (init.file !== "none") env("METICULOUS_API_TOKEN", "");
    if (init.file !== "none") writeFileSync(s.config, { token: '{"apiToken":"file"}', empty: { terminal: "{}", ci: '{"apiToken":""}', none: '{"apiToken":null}' }[init.tty], corrupt: '{"apiTo' }[init.file]);
    if (init.login.has) this.store(s, init.login);
    s.explicit = init.explicit ? "explicit" : [null, undefined, ""][(init.env + init.next) % 3];
    s.net.auto.push((c) => { if (c.url === `${ISSUER}/.well-known/openid-configuration`) { queueMicrotask(() => c.answer(200, { token_endpoint: TOKEN })); return true; } });
    return s;
  },
  async refresh(s, act) {
    await until(() => s.net.open((c) => c.url === TOKEN).length);
    const c = s.net.open((x) => x.url === TOKEN)[0]; if (!c) return "no refresh was made";
    if (act.ok) c.answer(200, { access_token: this.name(act.k), refresh_token: `r${act.k}`, expires_in: 300 }); else c.answer(400, { error: "invalid_grant" });
  },
  async step(s, act, to) {
    switch (act.n) {
      case "create": {
        s.made = track((async () => (act.kind === "plain" ? s.mod.createClient({ apiToken: s.explicit }) : s.mod.createClientWithOAuth({ apiToken: s.explicit, enableOAuthLogin: act.offer })))());
        await settle({ rounds: 3 });
        if (act.refresh) { const e = await this.refresh(s, act); if (e) return e; }
        if (act.browser) {
          await until(() => s.opened.length); if (!s.opened.length) return "no browser was opened";
          const l = loginUrl(s.opened[0]);
          const st = await visit(l.port, `/callback?code=abc&state=${act.done ? l.state : "forged"}`); if (st !== 200) return `the callback was answered ${st}`;
          if (act.done) { await until(() => s.net.open((c) => c.url === TOKEN).length); const c = s.net.open((x) => x.url === TOKEN)[0]; if (!c || !redeems(c, l, "abc")) return "the code was not exchanged"; c.answer(200, { access_token: this.name(act.k), refresh_token: `r${act.k}`, expires_in: 300 }); }
        }
        await until(() => s.made.state !== "pending"); break;
      }
      case "request": {
        const n = s.net.calls.length; const p = ["get", "post", "put", "delete"][n % 4];
        const t = track(s.made.value[p]("things/1")); await settle({ rounds: 3 });
        if (act.refresh) { const e = await this.refresh(s, act); if (e) return e; }
        const mine = () => s.net.calls.slice(n).filter((c) => c.url.startsWith("https://app.meticulous.ai/api/"));
        await until(() => mine().length || t.state !== "pending");
        const c = mine()[0]; s.cred = !c ? "unsent" : c.url !== "https://app.meticulous.ai/api/things/1" ? c.url : "authorization" in c.headers ? c.headers.authorization : "none";
        c?.answer(act.status, { message: "m" }); await until(() => t.state !== "pending");
        s.end = t.state === "ok" ? "ok" : /METICULOUS_API_TOKEN/.test(t.error?.message) && /auth login/.test(t.error.message) ? "guided" : t.state; if (mine().length > 1) return "sent more than once"; break;
      }
      case "env": env("METICULOUS_API_TOKEN", act.env ? `env${act.env}` : undefined); break;
      case "login": this.store(s, to.login); break;
      case "logout": s.mod.clearOAuthTokens(); break;
      case "expire": await s.clock.advance(1000 * ((JSON.parse(readFileSync(s.file, "utf8")).expiresAt - now()) - 10)); break;
    }
    await settle({ rounds: 2 });
  },
  observe(s) {
    const st = existsSync(s.file) ? JSON.parse(readFileSync(s.file, "utf8")) : null;
    return { client: s.made ? { ok: "made", error: "failed" }[s.made.state] ?? s.made.state : "none", opened: s.opened.length, cred: s.cred ?? "none", end: s.end ?? "none", login: st ? st.accessToken : "none", open: s.net.open().map((c) => c.url) };
  },
  expect(m, act, s) {
    if (act.n === "create" && act.browser) s.expectOpened = 1;
    return { client: { none: "none", failed: "failed" }[m.client.kind] ?? "made", opened: s.expectOpened ?? 0, cred: m.last.cred, end: m.last.end, login: m.login.has ? this.name(m.login.k) : "none", open: [] };
  },
  async teardown(s) { done(s); },
});
const swap = (x) => x.replace(/[a-z]/gi, (c) => (c < "a" ? c.toLowerCase() : c.toUpperCase()));
const login = (inst) => ({
  async setup(init, act) {
    const s = await base(inst); const auto = (act?.browser ?? true);
    const logs = []; s.mod.initLogger?.();
    s.out = track(s.mod.performOAuthLogin({ openBrowserAutomatically: true }));
    await until(() => s.opened.length || s.out.state !== "pending");
    if (s.opened.length) s.l = loginUrl(s.opened[0]);
    return s;
  },
  async step(s, act, to) {
    const l = s.l; if (!l?.port) return "no login is offered";
    if (!l.state || l.state.length < 16 || !l.challenge) return "the login is not bound";
    const q = { good: `code=abc&state=${l.state}`, forged: "code=abc&state=forged", empty: "", nostate: "code=abc", nocode: `state=${l.state}`, denied: `error=access_denied&error_description=no&state=${l.state}`, both: `error=access_denied&code=abc&state=${l.state}`, prefix: `code=abc&state=${l.state}0`, upper: `code=abc&state=${l.state.toUpperCase()}x`, blank: "code=abc&state=", last: `code=abc&state=${l.state.slice(0, -1)}~`, first: `code=abc&state=~${l.state.slice(1)}`, case: `code=abc&state=${encodeURIComponent(swap(l.state))}` };
    const c = s.net.open()[0];
    switch (act.n) {
      case "callback": { const st = await visit(l.port, `/callback?${q[act.kind]}`); if (st !== 200) return `callback: ${st}`; await until(() => s.out.state !== "pending" || s.net.open().length); break; }
      case "other": { const st = await visit(l.port, { favicon: "/favicon.ico", root: "/", sneaky: `/x/callback?code=abc&state=${l.state}` }[act.kind] ?? "/"); if (st !== 404) return `other: ${st}`;
        if (act.kind === "root") { const e = await visit(l.port, "/", "127.0.0.2"); if (e !== "ECONNREFUSED") return `reachable elsewhere: ${e}`; } break; }
      case "tick": await s.clock.advance(act.s * 1000); break;
      case "discovered": c?.answer(200, { token_endpoint: TOKEN }); break;
      case "exchanged": s.at = now(); c?.answer(200, { access_token: "access", refresh_token: "refresh", expires_in: 300, id_token: "id" }); break;
      case "fault": if (!c) return "nothing under way"; ({ server: () => c.answer(500, "oops"), refused: () => c.answer(400, { error: "invalid_grant" }), network: () => c.fail("ECONNREFUSED"), garbage: () => c.answer(200, "<html>") })[act.kind](); break;
    }
    await settle({ rounds: 4 });
  },
  observe(s) {
    const st = existsSync(s.file) ? JSON.parse(readFileSync(s.file, "utf8")) : null; const same = (x) => x.accessToken === "access" && x.refreshToken === "refresh" && x.expiresAt === s.at + 300 && x.idToken === "id";
    return { state: s.out.state, value: s.out.state === "ok" ? same(s.out.value) : null, stored: st === null ? null : same(st) ? (statSync(s.file).mode & 0o777).toString(8) : st, opened: s.opened.length, open: s.net.open().map((c) => (c.url === TOKEN ? (redeems(c, s.l, "abc") ? "exchange" : String(c.body)) : c.url === `${ISSUER}/.well-known/openid-configuration` ? "discover" : c.url)) };
  },
  expect: (m) => ({ state: { ok: "ok", failed: "error" }[m.phase] ?? "pending", value: m.phase === "ok" ? true : null, stored: m.phase === "ok" ? "600" : null, opened: 1, open: ["discover", "exchange"].includes(m.phase) ? [m.phase] : [] }),
  async finish(s, m) {
    if (m.phase === "listening") return;
    if (["ok", "failed"].includes(m.phase) && s.clock.pending().some((t) => !t.unref)) return "a timer keeps the process running after the end of the login";
    const e = await visit(s.l.port, `/callback?code=abc&state=${s.l.state}`); if (e !== "ECONNREFUSED") return `still listening: ${e}`;
  },
  async teardown(s) { if (s.out.state === "pending") { await s.clock.advance(130_000); for (const c of s.net.open()) c.fail("ECONNREFUSED"); await settle({ rounds: 3 }); } done(s); },
});
const set = (...a) => `{${a.map((x) => (typeof x === "string" ? `"${x}"` : typeof x === "boolean" ? String(x).toUpperCase() : x)).join(", ")}}`;
const INV = { invariants: ["ExplicitWins", "PlainIgnoresLogin"], properties: ["FollowsLogin"] };
const files = { a: "client/src/client.ts", b: "client/src/oauth/oauth-token-store.ts", c: "client/src/oauth/oauth-login.ts" };
const load = () => bundle(files).then((inst) => (d) => Object.assign({}, ...Object.values(inst(d))));
export { base, done, load, terminal };
export default {
  property: "A03",
  assumptions: ["time, the login server and the network are replaced by doubles, the browser by the driver; the callback server is real, on the loopback network", "files are in a scratch directory"],
  models: [{
    name: "credentials", spec: "Credentials", driver: async () => credentials(await load()),
    runs: ({ tier }) => {
      const t = tier === "thorough"; const B = set(false, true), L = set("none", "fresh", "stale"), F = set("none", "token", "empty", "corrupt");
      return [
        { name: "choice", cfg: { constants: { Explicits: B, Envs: set(0, 1), Files: F, Logins: L, Terminals: set("terminal", "ci", "none"), MaxChanges: 0, MaxRequests: 1, MaxToken: 3, Statuses: set(200, 401, 403, 404) }, ...INV }, maxPaths: t ? undefined : 2500, walks: t ? 2000 : 100 },
        { name: "changes", cfg: { constants: { Explicits: B, Envs: set(0, 1), Files: set("none", "token"), Logins: L, Terminals: set("none"), MaxChanges: t ? 3 : 2, MaxRequests: t ? 3 : 2, MaxToken: t ? 5 : 4, Statuses: set(200, 401) }, ...INV }, maxPaths: t ? 60000 : 5000, walks: t ? 5000 : 500 },
      ];
    },
  }, {
    name: "login", spec: "BrowserLogin", serial: false, driver: async () => login(await load()),
    runs: ({ tier }) => {
      const t = tier === "thorough";
      return [{ name: "login", cfg: { constants: { Callbacks: set("good", "forged", "empty", "nostate", "nocode", "denied", "both", "prefix", "upper", "blank", "last", "first", "case"), Faults: set("server", "refused", "network", "garbage"), Others: set("favicon", "root", "sneaky"), MaxOther: t ? 3 : 2, Steps: set(1, 119) }, properties: ["Bound", "EndsOnce"] }, maxPaths: t ? undefined : 2000, walks: t ? 2000 : 200 }];
    },
  }],
};
