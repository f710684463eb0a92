import { mkdtempSync, rmSync, readFileSync, existsSync } from "node:fs";
import { createHash } from "node:crypto";
import { tmpdir } from "node:os"; import { join } from "node:path";
import { isDeepStrictEqual } from "node:util";
import { bundle } from "../lib/bundle.mjs";
import { FakeClock, settle } from "../lib/clock.mjs";
import { track } from "../lib/util.mjs";
import { Net } from "../harness/net.mjs";

const WELL_KNOWN = "https://app.meticulous.ai/auth/realms/meticulous/.well-known/openid-configuration", DEVICE = "https://login.example/device", TOKEN = "https://login.example/token";
const driver = (inst) => ({
  async setup() {
    const s = { dir: mkdtempSync(join(tmpdir(), "verif-a02-")) };
    s.old = process.env.METICULOUS_DIR; process.env.METICULOUS_DIR = join(s.dir, "not", "yet"); s.file = join(process.env.METICULOUS_DIR, "oauth-tokens.json");
    s.clock = new FakeClock().install(); await s.clock.advance((1000 - (Date.now() % 1000)) % 1000);
    s.net = new Net(); s.fetch = globalThis.fetch; globalThis.fetch = s.net.fetch;
    s.out = track(inst(s.net.doubles()).performDeviceLogin());
    await settle({ rounds: 3 }); return s;
  },
  async step(s, act, to, from) {
    const c = s.net.open()[0];
    const auth = { device_code: "dev-1", user_code: "ABCD", verification_uri: "https://login.example/verify", expires_in: act.expires, ...(act.interval ? { interval: act.interval } : {}) };
    const cut = () => new ReadableStream({ pull(k) { k.error(new TypeError("terminated")); } });
    if (act.n === "wait") {
      if (act.s > 0) { await s.clock.advance(act.s * 1000 - 1); await settle({ rounds: 2 }); if (s.net.open().length) return "asked too early"; await s.clock.advance(1); }
      await settle({ rounds: 3 }); return;
    }
    if (!c) return "nothing is under way";
    if (act.lat) await s.clock.advance(act.lat * 1000);
    const answers = {
      discovered: () => c.answer(200, { token_endpoint: TOKEN, device_authorization_endpoint: DEVICE }), authorized: () => c.answer(200, auth),
      nodevice: () => c.answer(200, { token_endpoint: TOKEN }), missing: () => c.answer(200, { ...auth, device_code: "" }), badexpiry: () => c.answer(200, { ...auth, expires_in: "300" }), disabled: () => c.answer(401, { error: "unauthorized_client" }),
      server: () => c.answer(500, "oops"), unreachable: () => c.fail("ECONNREFUSED"),
      pending: () => c.answer(400, { error: "authorization_pending" }), slow: () => c.answer(400, { error: "slow_down" }), denied: () => c.answer(400, { error: "access_denied" }), expired: () => c.answer(400, { error: "expired_token" }),
      refused: () => c.answer(400, { error: "invalid_grant" }), unauthorized: () => c.answer(401, "<html>"), 500: () => c.answer(500, { error: "access_denied" }), 503: () => c.answer(503, "busy"), empty502: () => c.answer(502, ""), network: () => c.fail("ECONNRESET"), cut: () => c.answer(400, cut()), cut200: () => c.answer(200, cut()), slow429: () => c.answer(429, { error: "slow_down" }),
      approved: () => { s.at = Math.floor(Date.now() / 1000); c.answer(200, { access_token: "access", refresh_token: "refresh", expires_in: 300, id_token: "id" }); }, garbage: () => c.answer(200, "<html>"),
    };
    answers[act.kind ?? act.n](); await settle({ rounds: 4 });
  },
  observe(s, m) {
    const stored = existsSync(s.file) ? JSON.parse(readFileSync(s.file, "utf8")) : null;
    const tokens = { accessToken: "access", refreshToken: "refresh", expiresAt: s.at + 300, idToken: "id" };
    return { state: s.out.state, open: s.net.open().map((c) => this.describe(s, c)), stored: stored === null ? false : isDeepStrictEqual(stored, tokens) || stored, value: s.out.state === "ok" ? isDeepStrictEqual(s.out.value, tokens) || s.out.value : null,
      why: s.out.state === "error" ? this.reason(s.out.error) : null };
  },
  describe(s, c) {
    if (c.url === WELL_KNOWN) return "discover";
    const b = Object.fromEntries(new URLSearchParams(String(c.body)));
    if (c.url === DEVICE) { s.challenge = b.code_challenge; return c.method === "POST" && b.client_id === "meticulous-cli" && b.code_challenge_method === "S256" && b.code_challenge ? "authorize" : b; }
    if (c.url === TOKEN) return c.method === "POST" && b.grant_type === "urn:ietf:params:oauth:grant-type:device_code" && b.device_code === "dev-1" && b.client_id === "meticulous-cli" && createHash("sha256").update(b.code_verifier ?? "").digest("base64url") === s.challenge ? "poll" : b;
    return c.url;
  },
  reason: (e) => (/denied/.test(e.message) ? "denied" : /expired/.test(e.message) ? "expired" : "other"),
  expect(m) {
    return { state: { ok: "ok", failed: "error" }[m.phase] ?? "pending", open: ["discover", "authorize", "poll"].includes(m.phase) ? [m.phase] : [], stored: m.phase === "ok", value: m.phase === "ok" ? true : null,
      why: m.phase === "failed" ? (["denied", "expired"].includes(m.why) ? m.why : "other") : null };
  },
  async finish(s, m) { if (m.phase !== "ok" && m.phase !== "failed") return; const n = s.net.calls.length; await s.clock.advance(600_000); await settle({ rounds: 2 }); if (s.net.calls.length !== n) return "asked after the end"; },
  async teardown(s) { s.clock.uninstall(); globalThis.fetch = s.fetch; if (s.old === undefined) delete process.env.METICULOUS_DIR; else process.env.METICULOUS_DIR = s.old; rmSync(s.dir, { recursive: true, force: true }); },
});
const set = (...a) => `{${a.map((x) => (typeof x === "string" ? `"${x}"` : x)).join(", ")}}`;
const INV = { invariants: ["NotFaster"], properties: ["SlowsDown", "EndsOnce", "PollsWhileValid"] };
export default {
  property: "A02",
  assumptions: ["time, the login server and the network are replaced by doubles; files are in a scratch directory"],
  models: [{
    name: "device", spec: "DeviceLogin",
    driver: async () => driver(await bundle({ a: "client/src/oauth/oauth-device-login.ts" }).then((inst) => (d) => Object.assign({}, ...Object.values(inst(d))))),
    runs: ({ tier }) => {
      const t = tier === "thorough";
      return [
        { name: "answers", cfg: { constants: { Expires: set(12, 33), Intervals: set(0, 1, 4), Lats: set(0, 3), MaxSlow: t ? 3 : 2, AuthFaults: set("nodevice", "missing", "badexpiry", "disabled", "server", "unreachable"),
          Answers: set("pending", "slow", "denied", "expired", "refused", "unauthorized", "500", "503", "empty502", "network", "cut", "cut200", "slow429", "approved", "garbage") }, ...INV }, maxPaths: t ? undefined : 8000, walks: t ? 10000 : 1000 },
        { name: "slowing", cfg: { constants: { Expires: set(500), Intervals: set(0, 5), Lats: set(0), MaxSlow: 9, AuthFaults: set(), Answers: set("slow", "approved") }, ...INV }, maxPaths: 200 },
      ];
    },
  }],
};
