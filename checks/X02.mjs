import { mkdtempSync, rmSync, writeFileSync, mkdirSync } from "node:fs";
import { tmpdir } from "node:os"; import { join } from "node:path";
import { bundle } from "../lib/bundle.mjs";
import { track } from "../lib/util.mjs";

const KIND = "session-start-url-matches-any-regex";
const loop = () => { const o = {}; o.o = o; return o; };
const items = { plain: "^/checkout(/|$)", one: "a", longest: "x".repeat(1000), odd: "(unbalanced [", blank: " ", over: "x".repeat(1001), empty: "", number: 7, nothing: null, list: ["a"], object: {}, boxed: new String("a"), hole: undefined, flag: true, far: "y".repeat(100_000), emoji: "\u{1F600}".repeat(501) };
const types = { known: KIND, upper: KIND.toUpperCase(), spaced: ` ${KIND}`, other: "session-ids", nothing: null, number: 3, big: 10n, loop: loop(), symbol: Symbol("s"), list: [KIND], boxed: new String(KIND), bare: Object.create(null), empty: "", proto: "constructor" };
const lists = { string: "abc", object: { 0: "a", length: 1 }, nothing: null, number: 1, set: new Set(["a"]) };
const outers = { null: null, undefined: undefined, string: KIND, number: 5, big: 5n, array: [{ type: KIND, regexes: ["a"] }], function: () => 1, symbol: Symbol("x"), flag: true };
const regexes = (to, fills) => to.list === "list" ? to.items.flatMap((k, i) => (k === "fill" ? Array.from({ length: fills[i] }, (_, x) => `p${x}`) : [items[k]])) : lists[to.list];
const driver = (mod, mode) => ({
  async setup() { return { fills: {}, dir: mode === "file" ? mkdtempSync(join(tmpdir(), "verif-x02-")) : undefined }; },
  async step(s, act, to) { if (act.n === "fill") s.fills[to.items.length - 1] = act.by; },
  async observe(s, to) {
    const r = regexes(to, s.fills); let v;
    if (mode === "value") { v = to.outer === "object" ? { ...(to.type === "none" ? {} : { type: types[to.type] }), ...(to.list === "none" ? {} : { regexes: r }), more: 1 } : outers[to.outer]; }
    let out;
    if (mode === "value") { try { out = mod.filters.validateSessionFilter(v); } catch (e) { return { threw: String(e) }; } }
    else {
      const path = join(s.dir, "filter.json");
      // in a file the kind is the key the patterns are under
      const key = to.type === "known" ? KIND : to.type === "none" ? undefined : String(to.type === "upper" ? types.upper : to.type);
      const o = {}; if (key !== undefined) Object.defineProperty(o, key, { value: r, enumerable: true }); if (to.type === "extra") { o[KIND] = r; }
      if (to.outer === "missing") rmSync(path, { force: true }); else if (to.outer === "folder") mkdirSync(path, { recursive: true });
      else writeFileSync(path, to.outer === "text" ? JSON.stringify(o) : ({ broken: '{"a":', empty: "", array: `[{"${KIND}":["a"]}]`, string: `"${KIND}"`, null: "null", number: "12" })[to.outer]);
      const t = track(mod.cli.readSessionFilterFile(path)); await t.done; if (t.state !== "ok") return { threw: String(t.error) };
      rmSync(path, { force: true, recursive: true }); out = t.value;
    }
    return out.valid === true ? { valid: true, filter: out.filter } : { valid: out.valid, said: typeof out.error === "string" && out.error.length > 0, filter: out.filter };
  },
  expect: (to, act, s) => (to.ok ? { valid: true, filter: { type: KIND, regexes: regexes(to, s.fills) } } : { valid: false, said: true, filter: undefined }),
  async teardown(s) { if (s.dir) rmSync(s.dir, { recursive: true, force: true }); },
});
const set = (...a) => `{${a.map((x) => JSON.stringify(x)).join(", ")}}`;
const R = (name, constants, paths) => ({ name, cfg: { constants: { Mode: '"value"', Outers: set("object"), Types: set("known"), Lists: set("list"), Items: set("plain"), Fills: "{}", MaxItems: 0, ...constants }, invariants: ["Bounds"] }, maxPaths: paths, walks: 50 });
const mods = async () => ({ filters: (await bundle("session-filters/src/index.ts"))({}), cli: (await bundle("cli/src/commands/ci/session-filter.utils.ts"))({}) });
export default {
  property: "X02",
  assumptions: [],
  models: [
    { name: "value", spec: "SessionFilter", driver: async () => driver(await mods(), "value"), runs: ({ tier }) => [
      R("shapes", { Outers: set("object", ...Object.keys(outers)), Types: set(...Object.keys(types)), Lists: set("list", ...Object.keys(lists)), Items: set("plain", "empty"), MaxItems: 1 }, 3000),
      R("items", { Items: set(...Object.keys(items)), MaxItems: tier === "thorough" ? 4 : 3 }, tier === "thorough" ? 60000 : 5000),
      R("counts", { Items: set("plain", "longest", "over"), Fills: "{1, 498, 499, 500, 501}", MaxItems: 3 }, 2000)] },
    { name: "file", spec: "SessionFilter", driver: async () => driver(await mods(), "file"), runs: () => [
      R("shapes", { Mode: '"file"', Outers: set("text", "missing", "folder", "broken", "empty", "array", "string", "null", "number"), Types: set("known", "upper", "type", "regexes", "extra", "__proto__"), Lists: set("list", "string", "object", "nothing"), Items: set("plain", "empty", "number", "longest", "over", "nothing"), MaxItems: 2 }, 3000)] },
  ],
};
