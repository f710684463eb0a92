// Rewrites MANIFEST.json from checks/*.mjs and properties.jsonl.
import { readFileSync, writeFileSync, existsSync } from "node:fs";
const V = new URL("../", import.meta.url).pathname;
const NA = JSON.parse(readFileSync(V + "tools/not-applicable.json", "utf8"));
const props = readFileSync(V + "properties.jsonl", "utf8").trim().split("\n").map((l) => JSON.parse(l));
const checks = [], na = [];
for (const p of props) {
  if (existsSync(`${V}checks/${p.id}.mjs`)) {
    const { default: c } = await import(`${V}checks/${p.id}.mjs`);
    checks.push({
      property: p.id, quick_cmd: `node bin/check.mjs ${p.id} --tier quick`, thorough_cmd: `node bin/check.mjs ${p.id} --tier thorough`,
      evidence_file: `evidence/${p.id}.json`,
      technique: `TLA+ specification (${[...new Set(c.models.map((m) => m.spec))].join(", ")}) checked with TLC, its behaviours replayed in the real code`,
      level: c.level ?? "model_checking",
      level_note: c.note ?? "TLC checks the specification exhaustively within its bounds; every transition (quick: a seeded selection where the graph is large) is replayed against the code built from the working tree, comparing observables after each step. Assurance is bounded by the model's constants and the listed assumptions.",
    });
  } else na.push({ property: p.id, reason: NA[p.id] ?? "no check yet: the specification of this part is still being written" });
}
writeFileSync(V + "MANIFEST.json", JSON.stringify({ version: 1, setup_cmd: "bash bin/setup.sh", checks, not_applicable: na,
  notes: "Specifications are TLA+ modules in specs/, drivers in checks/ and harness/. See DESIGN.md." }, null, 1) + "\n");
console.log(checks.length, "checks,", na.length, "not applicable");
