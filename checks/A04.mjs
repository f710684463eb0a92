import { writeFileSync, readFileSync, existsSync } from "node:fs";
import { settle } from "../lib/clock.mjs";
import { track } from "../lib/util.mjs";
import { until } from "../harness/login.mjs";
import { base, done, load, terminal } from "./A03.mjs";

const URL_ = "https://app.meticulous.ai/api/oauth/default-project", JWT = "aaa.bbb.ccc";
const CONTENT = { project: '{"projectId":"legacy","name":"x"}', blank: '{"projectId":""}', corrupt: '{"projec' };
const driver = (inst) => ({
  async setup(init) { const s = await base(inst); terminal("none"); if (init.file !== "none") writeFileSync(s.legacy, CONTENT[init.file]); return s; },
  async step(s, act, to, from) {
    const c = s.net.open()[0];
    switch (act.n) {
      case "run": s.token = { login: JWT, project: "prat-a.b.c", run: "trat.b.c", plain: "abcdef", dots: "a..c" }[act.token]; s.out = track(s.mod.resolveApiTokenWithOAuth({ apiToken: s.token })); break;
      case "asked": c?.answer(200, { projectId: from.stored === "none" ? (new URL(c.url).searchParams.get("includeAutoPick") === "false" ? null : "the-only-one") : from.stored }); break;
      case "set": c?.answer(200, { projectId: "legacy" }); break;
      case "fault": ({ refused: () => c?.answer(403, { message: "no" }), older: () => c?.answer(404, "<html>"), network: () => c?.fail("EPROTO") })[act.kind](); break;
    }
    await settle({ rounds: 3 }); if (to.phase === "idle") await until(() => !s.out || s.out.state !== "pending");
  },
  observe(s) {
    return { run: !s.out ? "none" : s.out.state === "ok" ? (s.out.value === s.token ? "token" : String(s.out.value)) : s.out.state, file: existsSync(s.legacy) ? readFileSync(s.legacy, "utf8") : "none",
      open: s.net.open().map((c) => { const u = new URL(c.url); return `${c.headers.authorization === JWT ? "" : "?"}${c.method} ${u.origin + u.pathname === URL_ ? (c.method === "PUT" ? c.body : "default") : c.url}`; }) };
  },
  expect: (m) => ({ run: m.phase !== "idle" ? "pending" : m.runs ? "token" : "none", file: m.file === "none" ? "none" : CONTENT[m.file], open: m.phase === "ask" ? ["GET default"] : m.phase === "set" ? ['PUT {"project":"legacy"}'] : [] }),
  async teardown(s) { for (const c of s.net.open()) c.fail("EPROTO"); await settle({ rounds: 3 }); done(s); },
});
const set = (...a) => `{${a.map((x) => `"${x}"`).join(", ")}}`;
export default {
  property: "A04",
  assumptions: ["the backend is replaced by a double that picks a sole project unless told not to; files are in a scratch directory"],
  models: [{
    name: "legacy", spec: "LegacyProject", driver: async () => driver(await load()),
    runs: ({ tier }) => {
      const t = tier === "thorough";
      return [{ name: "runs", cfg: { constants: { Files: set("none", "project", "blank", "corrupt"), Defaults: set("none", "other"), Tokens: set("login", "project", "run", "plain", "dots"), MaxRuns: t ? 4 : 3, MaxOther: 1, Faults: set("refused", "older", "network") }, properties: ["NotLost", "Respected"] }, maxPaths: t ? undefined : 4000, walks: t ? 3000 : 300 }];
    },
  }],
};
