import { mkdirSync, writeFileSync } from "node:fs";
import { join } from "node:path";
/** Ways in which users configure how git shows diffs. */
const SETTINGS = {
  external: [["diff.external", "echo external"]], color: [["color.ui", "always"], ["color.diff", "always"]], noprefix: [["diff.noprefix", "true"]], mnemonic: [["diff.mnemonicPrefix", "true"]], relative: [["diff.relative", "true"]],
  textconv: [["diff.js.textconv", "tr a-z A-Z <"]], shown: [["status.showUntrackedFiles", "no"], ["status.short", "true"], ["status.relativePaths", "false"], ["core.quotePath", "false"], ["diff.renames", "copies"], ["diff.algorithm", "histogram"]],
};
export const CONFIGS = Object.keys(SETTINGS);
export const configure = (repo, conf, git) => {
  for (const [k, v] of SETTINGS[conf] ?? []) git("config", k, v);
  if (conf === "textconv") { mkdirSync(join(repo, ".git", "info"), { recursive: true }); writeFileSync(join(repo, ".git", "info", "attributes"), "*.js diff=js\n"); }
};
