import fs, { mkdtempSync, rmSync, writeFileSync, readFileSync, existsSync, statSync } from "node:fs";
import { tmpdir } from "node:os"; import { join } from "node:path";
import { bundle } from "../lib/bundle.mjs";
import { FakeClock, settle } from "../lib/clock.mjs";
import { track, settleUntil } from "../lib/util.mjs";
import { Net } from "../harness/net.mjs";

const ISSUER = "https://app.meticulous.ai/auth/realms/meticulous", ENDPOINT = "https://login.example/token";
const now = () => Math.floor(Date.now() / 1000);
const driver = (inst) => ({
  async setup(init) {
    const s = { dir: mkdtempSync(join(tmpdir(), "verif-a01-")), callers: {}, got: {} };
    s.old = process.env.METICULOUS_DIR; process.env.METICULOUS_DIR = s.dir; s.file = join(s.dir, "oauth-tokens.json");
    s.clock = new FakeClock().install(); await s.clock.advance((1000 - (Date.now() % 1000)) % 1000);
    s.net = new Net(); s.fetch = globalThis.fetch; globalThis.fetch = s.net.fetch;
    const w = (f, ...a) => { if (s.full) throw Object.assign(new Error("EACCES: permission denied"), { code: "EACCES" }); return fs.writeFileSync(f, ...a); };
    const full = { ...fs, writeFileSync: w }; s.mod = inst({ ...s.net.doubles(), fs: full, "node:fs": full });
    for (const c of Object.keys(init.got)) s.got[c] = 0;
    if (init.st.has) this.store(s, init.st); else if (init.next % 2) writeFileSync(s.file, '{"accessTok');
    return s;
  },
  tokens: (t) => ({ accessToken: `a-${t.a}`, refreshToken: t.r ? `r-${t.r}` : "", expiresAt: now() + t.left, idToken: `id-${t.id}` }),
  // what another process does
  store(s, t) { s.mod.storeOAuthTokens(this.tokens(t)); },
  async step(s, act, to) {
    const c = s.net.open()[0];
    switch (act.n) {
      case "call": { s.callers[act.c] = track(s.mod.getValidAccessToken()); break; }
      case "discovered": if (c?.url !== `${ISSUER}/.well-known/openid-configuration`) return `no discovery under way: ${c?.url}`; c.answer(200, { token_endpoint: ENDPOINT }); break;
      case "refreshed": if (c?.url !== ENDPOINT) return `no refresh under way: ${c?.url}`; c.answer(200, { access_token: `a-${act.k}`, expires_in: 300, ...(act.rotate ? { refresh_token: `r-${act.k}`, id_token: `id-${act.k}` } : {}) }); break;
      case "failed": if (!c) return "nothing under way"; ({ refused: () => c.answer(400, { error: "invalid_grant" }), server: () => c.answer(503, "busy"), network: () => c.fail("ECONNRESET"), garbage: () => c.answer(200, "<html>"), full: () => { s.full = true; c.answer(200, { access_token: `a-${act.k}`, expires_in: 300, refresh_token: `r-${act.k}` }); } })[act.kind](); break;
      case "login": this.store(s, to.st); break;
      case "otherRefresh": this.store(s, to.st); break;
      case "logout": s.mod.clearOAuthTokens(); break;
      case "tick": await s.clock.advance(act.s * 1000); break;
    }
    await settle({ rounds: 3 });
    await settleUntil(() => JSON.stringify(this.observe(s).open) === JSON.stringify(this.expect(to).open), { maxMs: 2000 });
    s.full = false;
  },
  observe(s) {
    for (const [c, t] of Object.entries(s.callers)) if (t.state !== "pending") { s.got[c] = t.state === "error" ? `rejected: ${t.error}` : t.value === null ? 0 : t.value; delete s.callers[c]; }
    let stored = null; try { if (existsSync(s.file)) { stored = JSON.parse(readFileSync(s.file, "utf8")); stored.left = stored.expiresAt - now(); delete stored.expiresAt; } } catch { stored = null; }
    return { open: s.net.open().map((c) => (c.url === ENDPOINT ? { method: c.method, type: c.headers["content-type"], ...Object.fromEntries(new URLSearchParams(String(c.body))) } : c.url)),
      waiting: Object.keys(s.callers).sort(), got: { ...s.got }, stored, mode: stored ? (statSync(s.file).mode & 0o777).toString(8) : null };
  },
  expect(m) {
    return { open: !m.ref.on ? [] : [m.ref.at === "token" ? { method: "POST", type: "application/x-www-form-urlencoded", grant_type: "refresh_token", client_id: "meticulous-cli", refresh_token: `r-${m.ref.r}` } : `${ISSUER}/.well-known/openid-configuration`],
      waiting: Object.keys(m.waiting).filter((c) => m.waiting[c]).sort(), got: Object.fromEntries(Object.entries(m.got).map(([c, k]) => [c, k ? `a-${k}` : 0])),
      stored: m.st.has ? { accessToken: `a-${m.st.a}`, refreshToken: m.st.r ? `r-${m.st.r}` : "", idToken: `id-${m.st.id}`, left: m.st.left } : null, mode: m.st.has ? "600" : null };
  },
  async teardown(s) { s.clock.uninstall(); globalThis.fetch = s.fetch; if (s.old === undefined) delete process.env.METICULOUS_DIR; else process.env.METICULOUS_DIR = s.old; rmSync(s.dir, { recursive: true, force: true }); },
});
const set = (...a) => `{${a.map((x) => `"${x}"`).join(", ")}}`;
const INV = { properties: ["NeverLost", "NotRevived", "OnlyFresh"] };
export default {
  property: "A01",
  assumptions: ["the login server and the network are replaced by doubles; files are in a scratch directory", "other processes act between the steps of this one, and replace the file as a whole"],
  models: [{
    name: "refresh", spec: "OAuthRefresh",
    driver: async () => driver(await bundle({ a: "client/src/oauth/oauth-refresh.ts", b: "client/src/oauth/oauth-token-store.ts" }).then((inst) => (d) => Object.assign({}, ...Object.values(inst(d))))),
    runs: ({ tier }) => {
      const t = tier === "thorough";
      const all = set("none", "stale", "fresh", "norefresh"), F = set("refused", "server", "network", "garbage", "full");
      return [
        { name: "one caller", cfg: { constants: { Callers: set("x"), Starts: all, MaxNew: t ? 5 : 4, MaxCalls: 3, MaxOther: t ? 3 : 2, Failures: F }, ...INV }, maxPaths: t ? 60000 : 7000, walks: t ? 8000 : 500 },
        { name: "callers", cfg: { constants: { Callers: set("x", "y", ...(t ? ["z"] : [])), Starts: set("stale"), MaxNew: 4, MaxCalls: 4, MaxOther: t ? 2 : 1, Failures: set("refused") }, ...INV }, maxPaths: t ? 60000 : 7000, walks: t ? 8000 : 500 },
      ];
    },
  }],
};
