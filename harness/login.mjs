// The browser's side of a login on a local callback server (a real one, on the loopback network).
import http from "node:http";
import { createHash } from "node:crypto";
import { settleUntil, sleepReal } from "../lib/util.mjs";
export const ISSUER = "https://app.meticulous.ai/auth/realms/meticulous", TOKEN = "https://login.example/token";
/** Requests path from the server; resolves with the status, or the error's code. */
export const visit = (port, path, host = "127.0.0.1") => new Promise((res) => {
  const r = http.request({ host, port, path, agent: false, headers: { connection: "close" } }, (m) => { m.resume(); m.on("end", () => res(m.statusCode)); m.on("error", () => res("broken")); });
  r.on("error", (e) => res(e.code)); r.end();
});
/** A child_process double: whatever is opened in a browser is noted. */
export const browser = (opened) => ({ exec: (cmd, cb) => { const m = /https?:\/\/[^"'\s]+/.exec(cmd); opened.push(m ? m[0] : cmd); cb?.(null, "", ""); return { on() {}, unref() {} }; },
  spawn: (c, a = []) => { opened.push([c, ...a].find((x) => /^https?:/.test(x))); return { on() {}, unref() {}, stdout: { on() {} }, stderr: { on() {} } }; } });
export const loginUrl = (u) => { const p = new URL(u).searchParams; return { state: p.get("state"), redirect: p.get("redirect_uri"), port: p.get("redirect_uri") && Number(new URL(p.get("redirect_uri")).port), challenge: p.get("code_challenge"), method: p.get("code_challenge_method"), type: p.get("response_type"), client: p.get("client_id") }; };
/** Whether a token request redeems `code` for the login that `l` describes. */
export const redeems = (c, l, code) => { const b = Object.fromEntries(new URLSearchParams(String(c.body)));
  return c.method === "POST" && b.grant_type === "authorization_code" && b.code === code && b.redirect_uri === l.redirect && b.client_id === "meticulous-cli" && l.client === b.client_id && l.method === "S256" && l.type === "code" && createHash("sha256").update(b.code_verifier ?? "").digest("base64url") === l.challenge; };
export const until = (pred, maxMs = 3000) => settleUntil(pred, { maxMs });
export { sleepReal };
