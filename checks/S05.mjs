import { createHash, createHmac } from "node:crypto";
import { loadSidecar, subtle } from "../harness/edge-sidecar.mjs";
import { FakeClock, settle, real } from "../lib/clock.mjs";
import { deferred, track } from "../lib/util.mjs";

const CONF = {
  default: { region: "us-west-2", bucket: "user-events-v3", pool: "us-west-2:6a0e6f85-53d0-41d7-b268-dede2251cc9d", base: "https://user-events-v3.s3.us-west-2.amazonaws.com/" },
  custom: { env: { METICULOUS_S3_BUCKET: "my-bucket", METICULOUS_S3_REGION: "eu-central-1", METICULOUS_COGNITO_IDENTITY_POOL_ID: "eu-central-1:pool" }, region: "eu-central-1", pool: "eu-central-1:pool", base: "https://my-bucket.s3.eu-central-1.amazonaws.com/" },
  endpoint: { env: { METICULOUS_S3_ENDPOINT_URL: "http://127.0.0.1:4566//", METICULOUS_S3_BUCKET: "my-bucket" }, region: "us-west-2", pool: "us-west-2:6a0e6f85-53d0-41d7-b268-dede2251cc9d", base: "http://127.0.0.1:4566/my-bucket/" },
  proxied: { env: { METICULOUS_S3_ENDPOINT_URL: "https://store.example/s3" }, region: "us-west-2", pool: "us-west-2:6a0e6f85-53d0-41d7-b268-dede2251cc9d", base: "https://store.example/s3/user-events-v3/" },
};
const KEYS = ["tok_01234567/BE_2026-12-31T23:50:00.000Z_00ff00ff00ff00ff/metadata.json", "tok_01234567/BE_2026-12-31T23:50:00.000Z_00ff00ff00ff00ff/12", "BE_2026-12-31T23:50:00.000Z_ab/abandoned.json", "a b/\u00fc\u2713/(x)'s *~!-_.$&,;=@/3"];
const DATA = [{ a: 1 }, { backendRecorderToken: "t", spans: [{ name: "\u2713 \ud83d\ude00", n: null }] }, {}, { t: "x".repeat(70_000) }];

const rfc3986 = (x) => encodeURIComponent(x).replace(/[!'()*]/g, (c) => `%${c.charCodeAt(0).toString(16).toUpperCase()}`);
const hash = (b) => createHash("sha256").update(b).digest("hex");
/** What an object store makes of a request: the credentials it is signed with, or what is wrong with it. */
const verify = (r, { region, known, now }) => {
  const h = r.headers; const m = /^AWS4-HMAC-SHA256 Credential=([^/]+)\/(\d{8})\/([^/]+)\/([^/]+)\/aws4_request, ?SignedHeaders=([^,]+), ?Signature=([0-9a-f]{64})$/.exec(h.authorization ?? "");
  if (!m) return `authorization ${h.authorization}`;
  const [, key, day, reg, service, signed, signature] = m; const c = known.get(key); if (!c) return `unknown key ${key}`;
  if (reg !== region || service !== "s3") return `scope ${reg}/${service}`;
  const d = h["x-amz-date"]; const t = /^(\d{4})(\d\d)(\d\d)T(\d\d)(\d\d)(\d\d)Z$/.exec(d ?? ""); if (!t || d.slice(0, 8) !== day) return `date ${d}, ${day}`;
  if (Math.abs(Date.UTC(t[1], t[2] - 1, t[3], t[4], t[5], t[6]) - now) > 60_000) return `signed at ${d}`;
  if (h["x-amz-security-token"] !== c.token) return "another session token";
  if (h["x-amz-content-sha256"] !== hash(r.body)) return "hash of the contents";
  const names = signed.split(";"); if (names.join() !== [...names].sort().join()) return `order of headers ${signed}`;
  for (const n of ["host", ...Object.keys(h).filter((k) => k.startsWith("x-amz-"))]) if (!names.includes(n)) return `${n} is not signed`;
  const u = new URL(r.url); const value = (n) => (n === "host" ? u.host : h[n]); for (const n of names) if (value(n) === undefined) return `${n} is not sent`;
  const canonical = [r.method, u.pathname.split("/").map((x) => rfc3986(decodeURIComponent(x))).join("/"), u.search.slice(1), names.map((n) => `${n}:${value(n).trim().replace(/ +/g, " ")}\n`).join(""), signed, h["x-amz-content-sha256"]].join("\n");
  const hmac = (k, x) => createHmac("sha256", k).update(x).digest(); let k = `AWS4${c.secret}`; for (const x of [day, reg, service, "aws4_request"]) k = hmac(k, x);
  if (hmac(k, ["AWS4-HMAC-SHA256", d, `${day}/${reg}/${service}/aws4_request`, hash(canonical)].join("\n")).toString("hex") !== signature) return `signature of ${canonical}`;
  return c.id;
};

const driver = (mod) => ({
  async setup(init) {
    const s = { conf: CONF[init.conf], calls: [], writes: [], known: new Map(), n: 0, bad: [] };
    s.clock = new FakeClock(Date.UTC(2026, 11, 31, 23, Object.keys(CONF).indexOf(init.conf) % 2 ? 62 : 50, 0)).install(); subtle.install();
    globalThis.fetch = (input, init = {}) => { const r = new Request(input, init); const d = deferred();
      const c = { url: typeof input === "string" ? input : r.url, method: r.method, headers: Object.fromEntries(r.headers), body: Buffer.from(init.body ?? ""), open: true };
      c.answer = (x) => { c.open = false; if (x === "net") d.reject(new TypeError("fetch failed")); else d.resolve(x); }; s.calls.push(c);
      const pool = new URL(c.url).hostname.startsWith("cognito-identity.");
      if (pool) { c.pool = true; if (c.url !== `https://cognito-identity.${s.conf.region}.amazonaws.com/` || c.method !== "POST") s.bad.push(`${c.method} ${c.url}`); if (c.headers["content-type"] !== "application/x-amz-json-1.1") s.bad.push("content type of a pool's call"); if (c.headers.authorization) s.bad.push("a signed call of the pool"); }
      else { const w = s.writes.findIndex((w) => w.url === new URL(c.url).href && !w.call); c.write = w; if (w < 0) s.bad.push(`written to ${c.url}`); else { s.writes[w].call = c;
        if (c.method !== "PUT" || c.body.toString() !== JSON.stringify(DATA[w % 4]) || c.headers["content-type"] !== "application/json") s.bad.push("what is written"); c.by = verify(c, { region: s.conf.region, known: s.known, now: s.clock.now }); } }
      return d.promise; };
    s.store = new mod.S3StorageBackend(mod.resolveSidecarConfig({ METICULOUS_RECORDING_TOKEN: "tok", ...s.conf.env }).storage);
    return s;
  },
  async step(s, act, to, from) {
    const pool = () => s.calls.find((c) => c.pool && c.open);
    if (act.n === "write") { const i = s.writes.length; const w = { url: new URL(s.conf.base + KEYS[i % 4].split("/").map(encodeURIComponent).join("/")).href }; w.url = new URL(s.conf.base + KEYS[i % 4]).href; s.writes.push(w); w.out = track(s.store.write(KEYS[i % 4], DATA[i % 4])); }
    else if (act.n === "pass") s.clock.now += act.m * 60_000;
    else if (act.n === "id") { const c = pool(); if (!c) return "no identity is asked for"; if (c.headers["x-amz-target"] !== "AWSCognitoIdentityService.GetId" || c.body.toString() !== JSON.stringify({ IdentityPoolId: s.conf.pool })) return `asked the pool for ${c.headers["x-amz-target"]} ${c.body}`;
      s.n = from.fetches; c.answer({ ok: () => Response.json({ IdentityId: `id-${s.n}` }), 500: () => new Response("no", { status: 500 }), odd: () => Response.json({}), text: () => new Response("<html>"), net: () => "net" }[act.k]()); }
    else if (act.n === "cred") { const c = pool(); if (!c) return "no credentials are asked for"; if (c.headers["x-amz-target"] !== "AWSCognitoIdentityService.GetCredentialsForIdentity" || c.body.toString() !== JSON.stringify({ IdentityId: `id-${s.n}` })) return `asked the pool for ${c.headers["x-amz-target"]} ${c.body}`;
      const k = { id: s.n, secret: `secret/${s.n}+x`, token: `token${s.n}==` }; const C = { AccessKeyId: `AKIA${s.n}`, SecretKey: k.secret, SessionToken: k.token, ...(act.m ? { Expiration: s.clock.now / 1000 + act.m * 60 } : {}) };
      if (act.k === "ok") s.known.set(C.AccessKeyId, k);
      const without = (n) => { const x = { ...C }; delete x[n]; return Response.json({ Credentials: x }); };
      c.answer({ ok: () => Response.json({ IdentityId: `id-${s.n}`, Credentials: C }), 400: () => new Response(JSON.stringify({ __type: "NotAuthorizedException" }), { status: 400 }), nokey: () => without("AccessKeyId"), nosecret: () => without("SecretKey"), notoken: () => without("SessionToken"), none: () => Response.json({}), net: () => "net" }[act.k]()); }
    else { const c = s.writes[act.i - 1].call; if (!c?.open) return "nothing is written"; c.answer({ ok: () => new Response("", { status: 200 }), 403: () => new Response("<Code>ExpiredToken</Code>", { status: 403 }), 500: () => new Response("slow down", { status: 503 }), net: () => "net" }[act.k]()); }
    await settle({ rounds: 6 });
  },
  observe: (s) => ({ writes: s.writes.map((w) => ({ out: w.out.state, by: w.call ? w.call.by : 0, under: !!w.call?.open })), pool: s.calls.filter((c) => c.pool && c.open).length, asked: s.calls.filter((c) => c.headers["x-amz-target"]?.endsWith(".GetId")).length, bad: s.bad }),
  expect: (m) => ({ writes: m.writes.map((w) => ({ out: { waiting: "pending", sent: "pending", ok: "ok", failed: "error" }[w.st], by: w.by, under: w.st === "sent" })), pool: m.fetch === "no" ? 0 : 1, asked: m.fetches, bad: [] }),
  async teardown(s) { for (let i = 0; i < 6; i++) { for (const c of s.calls) if (c.open) c.answer("net"); await settle({ rounds: 4 }); } s.clock.uninstall(); subtle.restore(); globalThis.fetch = real.fetch; },
});

const set = (...a) => `{${a.map((x) => (typeof x === "number" ? x : `"${x}"`)).join(", ")}}`;
const INV = { invariants: ["WaitingIsFetching", "FetchingIsForSomeone", "Signed"], properties: ["Final", "NoMoreThanNeeded"] };
export default {
  property: "S05",
  assumptions: ["the identity pool and the object store are doubles; the store verifies AWS Signature Version 4 as documented for S3, with node:crypto", "keys are made of a recording token, a session id and a name: no '%', '?', '#' or '+'", "whether a late refusal (403) of older credentials also gives up newer ones is left open"],
  models: [{
    name: "storage", spec: "EdgeStorage", driver: async () => driver((await loadSidecar())()),
    runs: ({ tier }) => {
      const t = tier === "thorough"; const C = { Confs: set("default"), Lives: set(60), Passing: set(), IdAnswers: set("ok"), CredAnswers: set("ok"), PutAnswers: set("ok"), MaxWrites: 3, MaxFetches: 3, MaxTime: 130, MaxLen: 9 };
      return [
        { name: "configured", cfg: { constants: { ...C, Confs: set("default", "custom", "endpoint", "proxied"), Passing: set(20), PutAnswers: set("ok", "500"), MaxWrites: 4, MaxLen: 11 }, ...INV }, maxPaths: t ? 6000 : 600 },
        { name: "expiry", cfg: { constants: { ...C, Lives: set(0, 3, 5, 6, 60), Passing: set(1, 24, 25, 54, 55), MaxWrites: 3, MaxLen: t ? 13 : 11 }, ...INV }, maxPaths: t ? 20000 : 1500, walks: t ? 2000 : 100 },
        { name: "failures", cfg: { constants: { ...C, IdAnswers: set("ok", "500", "odd", "text", "net"), CredAnswers: set("ok", "400", "nokey", "nosecret", "notoken", "none", "net"), PutAnswers: set("ok", "403", "500", "net"), Passing: set(55), MaxWrites: 3, MaxLen: t ? 9 : 7 }, ...INV }, maxPaths: t ? 20000 : 2500, walks: t ? 2000 : 200 },
        { name: "refused", cfg: { constants: { ...C, PutAnswers: set("ok", "403", "500"), MaxWrites: 4, MaxLen: t ? 14 : 12 }, ...INV }, maxPaths: t ? 20000 : 1500, walks: t ? 2000 : 200 },
      ];
    },
  }],
};
