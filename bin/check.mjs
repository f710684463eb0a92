import { runCheck } from "../lib/runner.mjs";
const args = process.argv.slice(2);
const id = args[0];
const opt = (n) => { const i = args.indexOf(n); return i >= 0 ? args[i + 1] : undefined; };
const tier = opt("--tier") ?? process.env.VERIF_TIER ?? "quick";
const seed = Number(opt("--seed") ?? process.env.VERIF_SEED ?? 1) || 1;
let code = 2;
try {
  const { default: check } = await import(`../checks/${id}.mjs`);
  code = await runCheck(check, { tier, seed, replay: opt("--replay"), onlyModel: opt("--model") });
} catch (e) { console.error(e); }
process.exit(code);
