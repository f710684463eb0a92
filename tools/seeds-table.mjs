// Prints the table of planted bugs of DESIGN.md, from seeded/*/meta.json.
import { readdirSync, readFileSync } from "node:fs";
const dir = new URL("../seeded/", import.meta.url).pathname;
const cell = (x) => String(x).replace(/\|/g, "\\|").replace(/\s+/g, " ");
console.log("| planted bug | property | what it needs in order to manifest | caught by |\n|---|---|---|---|");
for (const id of readdirSync(dir).sort()) {
  const m = JSON.parse(readFileSync(`${dir}${id}/meta.json`, "utf8"));
  console.log(`| ${id} | ${m.property} | ${cell(m.needs)} | ${m.missed_by ? `missed: ${cell(m.missed_by)}` : `${m.property}, quick`} |`);
}
