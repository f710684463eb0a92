// Replays paths for bin/check.mjs in a separate process (the drivers patch globals).
import { replayPath } from "../lib/runner.mjs";
const [id, modelName, tier, seed] = process.argv.slice(2);
const { default: check } = await import(`../checks/${id}.mjs`);
const model = check.models.find((m) => m.name === modelName);
const driver = await model.driver({ tier, seed: Number(seed) });
process.on("message", async (m) => {
  if (m === "end") { if (driver.close) await driver.close(); process.exit(0); }
  const out = [];
  for (const { i, init, path } of m) {
    const mm = await replayPath(driver, init, path, { seed: Number(seed) });
    out.push([i, mm]);
  }
  process.send(out);
});
process.send("ready");
