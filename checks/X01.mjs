import { bundle } from "../lib/bundle.mjs";

const own = (o, k, v) => Object.defineProperty(o, k, { value: v, enumerable: true, configurable: true, writable: true });
/** A value as text in which nothing is lost: own keys in order, whatever they are called. */
const enc = (v) => v instanceof Date ? { date: v.getTime() } : typeof v === "bigint" ? { big: String(v) } : Array.isArray(v) ? v.map(enc)
  : v && typeof v === "object" ? { entries: Object.entries(v).map(([k, x]) => [k, enc(x)]), plain: Object.getPrototypeOf(v) === Object.prototype } : v === undefined ? { undefined: 1 } : v;

const DAY = 86_400_000;
const fresh = (l, i) => ({ str: `secret-${i}`, num: 1000 + i, big: 10n ** 20n + BigInt(i), date: new Date(40_000 * DAY + i), bool: true, nil: null, undef: undefined })[l.kind];
const code = (t) => [...t].reduce((a, c) => a + c.charCodeAt(0), 0);
const strTag = (t) => (v) => `<${t}:${v}>`; const numTag = (t) => (v) => -v - code(t); const bigTag = (t) => (v) => -v - BigInt(code(t)); const dateTag = (t) => () => new Date(code(t) * DAY);
const tagged = (l, i, tag) => {
  const v = fresh(l, i);
  if (tag === "kept" || tag === "endSsnKeep") return v;
  if (tag === "object" || tag === "array") return v;
  if (tag === "default") return l.kind === "date" ? new Date(0) : [...v].map(() => "*").join("");
  return ({ str: strTag, num: numTag, big: bigTag, date: dateTag, bool: () => (x) => !x })[l.kind](tag)(v);
};
const GONE = { object: { gone: 1 }, array: ["gone"] };
const place = (l, v, tag) => {
  const o = (k, x) => own({ before: 1 }, k, x);
  switch (l.shape) {
    case "plain": return tag === "object" ? GONE.object : o(l.key, v);
    case "list": return tag === "object" ? GONE.object : o(l.key, tag === "array" ? GONE.array : [null, v, false]);
    case "listList": return tag === "object" ? GONE.object : o(l.key, tag === "array" ? GONE.array : [[null], [[v]]]);
    case "objInList": return tag === "object" ? GONE.object : o(l.key, tag === "array" ? GONE.array : [false, own({}, "within", v)]);
    case "deep": { const inner = tag === "object" ? GONE.object : o(l.key, v); return { outer: { list: [[{ again: inner }]], empty: {} }, none: [] }; }
    case "root": return v;
    case "rootList": return [v];
  }
};
const docOf = (leaves, tags) => {
  const at = leaves.map((l, i) => place(l, tagged(l, i, tags[i]), tags[i]));
  if (leaves[0].shape === "root" || leaves[0].shape === "rootList") return at[0];
  return leaves.length === 1 ? at[0] : { items: at, rest: { bare: true, n: null } };
};
const OPS = {
  endSsn: (m, b, t) => b.withPatternBasedStringRedactor(m.redactKeysEndingWith("ssn", t)), endSsnKeep: (m, b) => b.withPatternBasedStringRedactor(m.redactKeysEndingWith("ssn", m.doNotRedact)),
  keySsn: (m, b, t) => b.withPatternBasedStringRedactor(m.redactKey("ssn", t)), keyX: (m, b, t) => b.withPatternBasedStringRedactor(m.redactKey("x", t)),
  endTorKey: (m, b, t) => b.withPatternBasedStringRedactor(m.redactKeysEndingWith("ctor", t)), endProto: (m, b, t) => b.withPatternBasedStringRedactor(m.redactKeysEndingWith("proto__", t)),
  keyEmpty: (m, b, t) => b.withPatternBasedStringRedactor(m.redactKey("", t)),
  set: (m, b, t) => b.withPatternBasedStringRedactors(m.PatternBasedRedactorSet.create().with(m.redactKeysEndingWith("Name", t)).withSet(m.PatternBasedRedactorSet.create().with(m.redactKey("x", t)))),
  setSsn: (m, b, t) => b.withPatternBasedStringRedactors(m.PatternBasedRedactorSet.create().with(m.redactKeysEndingWith("ssn", t))),
  otherwise: (m, b, t) => b.withDefaultStringRedactor(t),
  dateAt: (m, b, t, d) => b.withPatternBasedDateRedactor(m.redactKeysEndingWith("edAt", d)),
  dateSet: (m, b, t, d) => b.withPatternBasedDateRedactors(m.PatternBasedRedactorSet.create().with(m.redactKey("createdAt", d)).with(m.redactKey("ssn", d)).with(m.redactKey("x", d))),
};
const keysOf = (o) => ({ ssn: ["ssn"], ssnOther: ["ssn"], all: ["ssn", "", "constructor", "__proto__", "id"] })[o] ?? [];
const table = (ks, f) => ks.reduce((o, k) => own(o, k, f), {});
const nested = (m, strict) => ({
  observeInit: false, async setup(init) { return { b: init.start === "defaults" ? m.NestedFieldsRedactor.builderWithDefaults() : m.NestedFieldsRedactor.builder(), leaves: [] }; },
  async step(s, act, to) {
    if (act.n === "with") s.b = OPS[act.op](m, s.b, strTag(act.op), dateTag(act.op));
    else if (act.n === "make") {
      const ks = keysOf(act.o); const extra = act.o === "all";
      s.f = s.b[strict]({ strings: table(ks, strTag("own")), ...(extra ? { numbers: table(ks, numTag("own")), bigints: table(ks, bigTag("own")), dates: table(ks, dateTag("own")) } : {}), ...(act.o === "other" || act.o === "ssnOther" ? { defaultStringRedactor: strTag("other") } : {}) });
    } else if (act.n === "use") {
      const d = docOf(to.leaves, to.leaves.map(() => "kept")); const was = JSON.stringify(enc(d));
      s.out = enc(s.f(d)); if (JSON.stringify(enc(d)) !== was) return "the document given was changed";
    } else s.out = null;
  },
  observe: (s, to) => (to.out.length ? s.out : null),
  expect: (to) => (to.out.length ? enc(docOf(to.leaves, to.out)) : null),
});
const recursive = (m) => ({
  observeInit: false, async setup() { return { ops: [] }; },
  async step(s, act, to) {
    if (act.n === "with") s.ops.push(act.op);
    else if (act.n === "use") {
      const d = docOf(to.leaves, to.leaves.map(() => "kept")); const was = JSON.stringify(enc(d)); s.bad = undefined;
      const at = (path) => path.reduce((x, k) => (x !== null && typeof x === "object" && Object.hasOwn(x, k) ? x[k] : { nowhere: path }), d);
      const seen = (f) => (v, path) => { if (enc(at(path)) !== enc(v) && JSON.stringify(enc(at(path))) !== JSON.stringify(enc(v))) s.bad = `the path given for ${String(v)} is ${JSON.stringify(path)}`; return f(v, path); };
      const fns = { str: ["redactString", seen(strTag("str"))], num: ["redactNumber", seen((v) => (v >= 1000 ? numTag("num")(v) : v))], big: ["redactBigInt", seen(bigTag("big"))], bool: ["redactBoolean", seen((v, path) => (["bare"].includes(path.at(-1)) || v === false ? v : !v))],
        object: ["redactObject", seen((o) => (Object.hasOwn(o, "ssn") ? GONE.object : o))], array: ["redactArray", seen((a, path) => (path.at(-1) === "ssn" || path.at(-1) === "x" ? GONE.array : a))] };
      s.out = enc(m.redactRecursively(d, Object.fromEntries(s.ops.map((o) => fns[o])))); if (JSON.stringify(enc(d)) !== was) return "the document given was changed";
      return s.bad;
    } else s.out = null;
  },
  observe: (s, to) => (to.out.length ? s.out : null),
  expect: (to) => (to.out.length ? enc(docOf(to.leaves, to.out)) : null),
});

// ---- text and URLs
const LINE = "\n";
const tok = (t, i) => ({ abc: `ab${"cdef"[i % 4]}`, 12: String(12 + i), nl: LINE, emoji: "\u00e9\u{1F600}", http: "http://h\u00f6st.priv", https: "https://priv-host", iso: "2024-01-01T00:00:00.000Z" })[t] ?? t;
const rendered = (t, o, x) => o === "kept" ? x : o === "zero" ? x.replace(/\d/g, "0") : o === "stars" ? x.replace(/[^]/g, "*") : o === "dashes" ? x.replace(/[^.]/g, "-") : x;
const parts = {
  user: { none: "", u: "priv-user@", up: "priv-user:priv-pass%20x@", p: ":priv-pass@" }, host: { plain: "priv.example", ip6: "[2001:db8::1]", idn: "priv\u00fc.example", deep: "a.priv.example.co.uk", ip4: "192.168.7.9" },
  port: { none: "", given: ":8443" }, path: { none: "", root: "/", one: "/priv", deep: "/priv/a%2Fpriv/priv.html", slashes: "/priv//priv/", odd: "/priv;x=priv/~priv" },
  query: { none: "", one: "?priv1=privA", two: "?priv1=privA&priv2=privB", dup: "?priv1=privA&priv1=privB", bare: "?privbare", encoded: "?priv%201=priv%26A", many: "?p1=privA&p2=privB&p3=privC&p4=privD" }, hash: { none: "", one: "#priv", route: "#/priv?priv=priv" },
};
const address = (u) => u.scheme === "relative" ? "/priv/page?priv=1" : u.scheme === "nohost" ? "https://" : u.scheme === "spaces" ? "https://priv host/priv" : u.scheme === "mailto" ? "mailto:priv%40priv.example" : u.scheme === "data" ? "data:text/plain,priv" : u.scheme === "blob" ? "blob:https://priv.example/priv-priv" : u.scheme === "javascript" ? "javascript:priv()"
  : `${u.scheme}://${parts.user[u.user]}${parts.host[u.host]}${parts.port[u.port]}${parts.path[u.path]}${parts.query[u.query]}${parts.hash[u.hash]}`;
const params = (u) => [...new URL(address(u)).searchParams];
const texts = (m) => ({
  observeInit: false, async setup() { return {}; },
  async step(s, act, to) {
    if (act.n === "type") {
      s.text = to.toks.map((t, i) => tok(t, i)).join("");
      s.out = to.fn === "string" ? m.redactString(s.text) : to.fn === "email" ? m.redactEmail(s.text) : to.fn === "asterix" ? m.asterixOut(s.text) : m.asterixOut(s.text, { preserveWhitespace: false });
    } else s.out = m.redactUrl(address(to.url));
  },
  observe(s, to) {
    if (to.url.scheme !== "none") {
      const k = to.out.kind;
      if (k === "stars") return { text: s.out }; if (k === "opaque") return { scheme: s.out.split(":")[0], leak: /priv/.test(s.out) };
      try {
        const u = new URL(s.out);
        return { scheme: u.protocol.slice(0, -1), user: [u.username, u.password], host: u.hostname, port: u.port, path: u.pathname, query: [...u.searchParams], hash: u.hash };
      } catch { return { broken: s.out }; }
    }
    if (to.out.class === "url") return { leak: /priv|ab[cdef]|1[2-9]|h\u00f6st/.test(s.out) };
    return { text: s.out };
  },
  expect(m2, act, s) {
    const u = m2.url; const o = m2.out;
    if (u.scheme !== "none") {
      if (o.kind === "stars") return { text: address(u).replace(/[^ ]/g, "*") }; if (o.kind === "opaque") return { scheme: u.scheme, leak: false };
      const orig = new URL(address(u));
      return { scheme: o.scheme, user: [orig.username.replace(/[^]/g, "*"), orig.password.replace(/[^]/g, "*")], host: o.host, port: o.port === "given" ? "8443" : "", path: orig.pathname.replace(/[^/]+/g, "redacted"), query: params(u).map((_, i) => [`redactedParam${i + 1}`, "redacted"]), hash: o.hash ? "#redactedHash" : "" };
    }
    if (act.n !== "type") return { text: s.out };
    if (o.class === "url") return { leak: false }; if (o.class === "iso") return { text: "1970-01-01T00:00:00.000Z" };
    return { text: m2.toks.map((t, i) => rendered(t, o.toks[i], tok(t, i))).join("") };
  },
});

// ---- middleware
const COOKIE = { sid: "sid=priv", SID: "SID=priv", eq: "sid=pr=iv==", quoted: 'sid="priv v"', empty: "sid=", spaced: "  sid =  priv ", long: `sid=${"priv%20".repeat(40)}`, bare: "sid", blank: "", other: "other=keep", sidx: "sidx=keep", xsid: "xsid=keep", ctor: "constructor=priv", proto: "__proto__=priv", path: "Path=/", expires: "Expires=Wed, 21 Oct 2026 07:28:00 GMT" };
const norm = (v) => v.split(";").map((x) => x.trim());
const request = (hs) => ({ url: "https://api.example/x", method: "POST", headers: hs.map((h) => ({ name: h.h, value: h.cs.map((c) => COOKIE[c]).join(h.h === "COOKIE" ? ";" : "; ") })), postData: { mimeType: "text/plain", text: "sid=body" } });
const response = (hs) => ({ status: 207, headers: request(hs).headers, content: { mimeType: "text/plain", text: "sid=body", encoding: "x" } });
const headers = (m, drop) => ({
  observeInit: false, async setup(init) { return { mw: drop ? m.dropRequestHeader("cooKie") : m.redactCookies({ none: [], sid: ["sid"], SID: ["SID"], several: ["nope", "sid", "Constructor"], proto: ["__proto__", "other"] }[init.cfg.names]), surface: init.cfg.surface }; },
  async step(s, act, to) {
    const d = s.surface === "request" ? request(to.hs) : response(to.hs); const was = JSON.stringify(d);
    s.out = s.surface === "request" ? s.mw.transformNetworkRequest(d) : s.mw.transformNetworkResponse(d);
    if (JSON.stringify(d) !== was) return "what was given was changed";
  },
  observe: (s, to) => (to.hs.length ? { ...s.out, headers: s.out.headers.map((h) => [h.name, norm(h.value)]) } : null),
  expect(to, act, s) {
    if (!to.hs.length) return null;
    const base = s.surface === "request" ? request(to.hs) : response(to.hs); const named = { none: [], sid: ["sid"], SID: ["sid"], several: ["sid", "constructor"], proto: ["__proto__", "other"] }[to.cfg.names];
    const carries = (h) => h.toLowerCase() === (s.surface === "request" ? "cookie" : "set-cookie");
    return { ...base, headers: base.headers.flatMap((h, i) => drop && h.name.toLowerCase() === "cookie" ? [] : [[h.name, norm(h.value).map((c) => { const k = c.split("=")[0].trim(); return !drop && carries(h.name) && c.includes("=") && named.includes(k.toLowerCase()) ? `${k}=******` : c; })]]) };
  },
});
const BODY = { obj: '{"a":"priv","n":1}', arr: ' ["priv"] ', prim: '"priv"', nul: "null", num: "5", bad: '{"a":', html: "<html>priv</html>", empty: "", absent: undefined, proto: '{"__proto__":{"a":"priv"}}' };
const URLS = { api: "https://api.example/x", mid: "https://proxy.example/?to=https://api.example/x", other: "https://else.example/x", API: "HTTPS://API.EXAMPLE/x" };
const responses = (m) => ({
  observeInit: false, async setup(init) {
    const { flags, skip, tf } = init.cfg; const s = { bad: undefined };
    s.mw = m.transformJsonResponse({ ...(flags === "none" ? {} : { urlRegExp: new RegExp("https://api\\.example/", flags === "plain" ? "" : flags) }), ...(skip === "unset" ? {} : { skipRedactionIfNotValidJSON: skip === "yes" }),
      transform: (d, meta) => { if (meta.response !== s.given || meta.request?.url !== s.url || meta.extra !== 9) s.bad = "the transform is not told what it transforms"; if (JSON.stringify(d) !== JSON.stringify(JSON.parse(s.given.content.text))) s.bad = `the transform is given ${JSON.stringify(d)}`; return tf === "same" ? d : tf === "text" ? String(d) : { gone: true }; } });
    return s;
  },
  async step(s, act) {
    s.url = URLS[act.url]; const d = { status: 500, headers: [{ name: "a", value: "b" }], content: { mimeType: "application/json", ...(BODY[act.body] === undefined ? {} : { text: BODY[act.body] }) } }; s.given = d; const was = JSON.stringify(d);
    s.out = s.mw.transformNetworkResponse(d, { request: { url: s.url }, extra: 9 });
    if (JSON.stringify(d) !== was) return "what was given was changed";
    return s.bad;
  },
  observe: (s, to) => (to.rs.length ? s.out : null),
  expect(to) {
    const r = to.rs.at(-1); if (!r) return null;
    const text = r.out === "as is" ? BODY[r.body] : r.out === "blanked" ? "<REDACTED>" : r.out === "text" ? JSON.stringify(String(JSON.parse(BODY[r.body]))) : '{"gone":true}';
    return { status: 500, headers: [{ name: "a", value: "b" }], content: { mimeType: "application/json", ...(text === undefined ? {} : { text }) } };
  },
});

const set = (...a) => `{${a.map((x) => JSON.stringify(x)).join(", ")}}`;
const redaction = async () => (await bundle("redaction/src/index.ts"))({});
const INV = { invariants: ["Exact", "Nothing"] };
const N = (name, extra, paths = 3000) => ({ name, cfg: { constants: { Mode: '"nested"', Starts: set("plain"), Ops: set(), MaxOps: 2, Opts: set("none"), Keys: set("ssn"), Kinds: set("str"), Shapes: set("plain"), MaxLeaves: 1, MaxUses: 1, ...extra }, ...INV }, maxPaths: paths, walks: 100 });
const DEFAULTS = ["name", "first_name", "my_last_name", "full_name", "fullName", "firstname", "myLastname", "url", "uri", "link", "href", "theUrl", "theUri", "theLink", "theHref", "address", "addressLine1", "my_address_line_1", "homeAddress", "home_address", "postalAddress", "postal_address", "phone", "workPhone", "phone_number", "ssn", "mySSN", "username", "myUsername", "user_name", "credit_card", "creditCard", "credit_card_number", "creditCardNumber", "cvc", "CVC", "text", "description", "summary", "title", "theText", "theDescription", "theSummary", "theTitle",
  "dob", "DOB", "date_of_birth", "dateOfBirth", "theDateOfBirth", "birthDate", "theBirthDate", "birth_date", "id", "userId", "theID", "my_id", "uuid", "type", "theKind", "created_at", "updatedAt", "other", "paid", "archetype", "mankind", "surname", "constructor"];
const ODD = ["ssn", "mySsn:ssn", "x", "constructor", "toString", "__proto__", "hasOwnProperty", "", "createdAt", "userName", "Name", "id", "0"];
const ALLSHAPES = set("plain", "list", "listList", "objInList", "deep", "root", "rootList");
const T = (name, extra, paths) => ({ name, cfg: { constants: { Mode: '"text"', Fns: extra.Mode ? set("url") : set("string", "email", "asterix", "asterixAll"), Tokens: set(), MaxTokens: 0, Schemes: set("https"), Users: set("none"), Hosts: set("plain"), Ports: set("none"), Paths: set("root"), Queries: set("none"), Hashes: set("none"), ...extra }, invariants: ["NoWords", "ShapeKept", "NoParts"] }, maxPaths: paths, walks: 50 });
const M = (name, extra, paths) => ({ name, cfg: { constants: { Mode: '"cookies"', Configs: set("none"), Surfaces: set("request", "response"), Headers: set(), Cookies: set(), MaxHeaders: 0, MaxCookies: 0, Flags: set("none"), Skips: set("unset"), Transforms: set("same"), Urls: set(), Bodies: set(), MaxResponses: 0, ...extra }, invariants: ["Memoryless", "NoneLeft"] }, maxPaths: paths, walks: 50 });
const nestedRuns = (tier) => [
  N("ops", { Ops: set("endSsn", "endSsnKeep", "keySsn", "set", "setSsn", "otherwise"), Opts: set("none", "ssn", "other", "ssnOther"), Keys: set("ssn", "mySsn:ssn", "x", "userName"), Shapes: set("plain", "rootList") }),
  N("keys", { Ops: set("endTorKey", "endProto", "keyEmpty", "keyX", "set", "otherwise"), MaxOps: 1, Opts: set("none", "all", "other"), Keys: set(...ODD), Shapes: set("plain", "list") }, 4000),
  N("kinds", { Ops: set("dateAt", "dateSet", "endSsn", "otherwise"), Opts: set("none", "all"), MaxOps: tier === "thorough" ? 2 : 1, Keys: set("ssn", "createdAt", ""), Kinds: set("str", "num", "big", "date", "bool", "nil", "undef"), Shapes: ALLSHAPES }, 4000),
  N("two", { Ops: set("endSsn"), MaxOps: 1, Opts: set("none", "other"), Keys: set("ssn", "x"), Kinds: set("str", "date"), Shapes: set("plain", "list", "objInList", "deep"), MaxLeaves: 2, MaxUses: 2 }, 2500),
  N("defaults", { Starts: set("defaults"), MaxOps: 0, Opts: set("none", "ssn", "other"), Keys: set(...DEFAULTS), Kinds: set("str", "date", "num"), Shapes: set("plain", "list") }, 4000),
];
export default {
  property: "X01",
  assumptions: [],
  models: [
    { name: "nested", spec: "NestedRedact", driver: async () => nested(await redaction(), "createRedactorLax"), runs: ({ tier }) => nestedRuns(tier) },
    { name: "typed", spec: "NestedRedact", driver: async () => nested(await redaction(), "createRedactor"), runs: ({ tier }) => [nestedRuns(tier)[0], nestedRuns(tier)[2]] },
    { name: "strict", spec: "NestedRedact", driver: async () => nested(await redaction(), "createRedactorStrict"), runs: ({ tier }) => [nestedRuns(tier)[0], nestedRuns(tier)[2]] },
    { name: "recursive", spec: "NestedRedact", driver: async () => recursive(await redaction()), runs: ({ tier }) => [
      N("types", { Mode: '"recursive"', Ops: set("str", "num", "big", "bool", "object", "array"), MaxOps: tier === "thorough" ? 6 : 2, Keys: set("ssn", "__proto__", "x"), Kinds: set("str", "num", "big", "date", "bool", "nil", "undef"), Shapes: ALLSHAPES }, 7000),
      N("two", { Mode: '"recursive"', Ops: set("str", "object", "array"), MaxOps: 2, Keys: set("ssn", "x"), Kinds: set("str", "num"), Shapes: set("plain", "list", "objInList", "deep"), MaxLeaves: 2, MaxUses: 2 }, 2500)] },
    { name: "text", spec: "TextRedact", driver: async () => texts(await redaction()), runs: ({ tier }) => [
      T("text", { Tokens: set("abc", "12", " ", "nl", "@", ".", "com", "-", "/", "#", "%", "$", "emoji", "http", "iso"), MaxTokens: tier === "thorough" ? 4 : 3 }, tier === "thorough" ? 60000 : 14000)] },
    { name: "url", spec: "TextRedact", driver: async () => texts(await redaction()), runs: () => [
      T("parts", { Mode: '"url"', Schemes: set("https", "http", "ftp", "file", "foo", "mailto", "data", "blob", "javascript", "relative", "nohost", "spaces"), Users: set("none", "u", "up", "p"), Hosts: set("plain", "ip6", "idn", "deep", "ip4"), Ports: set("none", "given"), Paths: set("none", "root", "one", "deep", "slashes", "odd"), Hashes: set("none", "one", "route") }, 4000)] },
    { name: "urlquery", spec: "TextRedact", driver: async () => texts(await redaction()), runs: () => [
      T("query", { Mode: '"url"', Schemes: set("https", "foo"), Users: set("none", "up"), Paths: set("root", "deep"), Queries: set("none", "one", "two", "dup", "bare", "encoded", "many"), Hashes: set("none", "one") }, 1000)] },
    { name: "cookies", spec: "RedactMiddleware", driver: async () => headers(await redaction(), false), runs: ({ tier }) => [
      M("cookies", { Configs: set("none", "sid", "SID", "several", "proto"), Headers: set("cookie", "Set-Cookie"), Cookies: set("sid", "SID", "eq", "quoted", "empty", "spaced", "long", "bare", "blank", "other", "sidx", "xsid", "ctor", "proto", "path", "expires"), MaxHeaders: 1, MaxCookies: tier === "thorough" ? 3 : 2 }, 6000),
      M("headers", { Configs: set("sid"), Headers: set("cookie", "Cookie", "COOKIE", "set-cookie", "Set-Cookie", "SET-COOKIE", "x-cookie", "cookie2"), Cookies: set("sid", "other"), MaxHeaders: 2, MaxCookies: 2 }, 6000)] },
    { name: "drop", spec: "RedactMiddleware", driver: async () => headers(await redaction(), true), runs: () => [
      M("drop", { Mode: '"drop"', Configs: set("none"), Surfaces: set("request"), Headers: set("cookie", "Cookie", "COOKIE", "set-cookie", "x-cookie", "cookie2"), Cookies: set("sid"), MaxHeaders: 4, MaxCookies: 1 }, 3000)] },
    { name: "json", spec: "RedactMiddleware", driver: async () => responses(await redaction()), runs: ({ tier }) => [
      M("json", { Mode: '"json"', Flags: set("none", "plain", "g", "y", "gy", "i", "gi"), Skips: set("unset", "yes", "no"), Transforms: set("same", "other"), Urls: set("api", "mid", "other"), Bodies: set("obj", "bad"), MaxResponses: 3 }, 10000),
      M("bodies", { Mode: '"json"', Flags: set("none", "i"), Skips: set("unset", "yes", "no"), Transforms: set("same", "other", "text"), Urls: set("api", "mid", "other", "API"), Bodies: set("obj", "arr", "prim", "nul", "num", "bad", "html", "empty", "absent", "proto"), MaxResponses: 1 }, 3000)] },
  ],
  // the query parameters that redactUrl leaves beside the ones it adds (pinned by the project's own tests): exactly those, and nothing else
  matchesKnown(k, sig) {
    if (k.key !== "redactUrl-query" || !sig.mismatch.expected || !sig.mismatch.actual?.query) return false;
    const { query: added, ...rest } = sig.mismatch.expected; const { query, ...got } = sig.mismatch.actual;
    return JSON.stringify(rest) === JSON.stringify(got) && query.length === 2 * added.length && JSON.stringify(query.slice(added.length)) === JSON.stringify(added) && query.slice(0, added.length).every(([a]) => a.startsWith("p"));
  },
};
