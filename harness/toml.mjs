// TOML as Python's tomllib reads it: an independent parser.
import { spawn } from "node:child_process";
const CODE = `
import sys, json, tomllib
for line in sys.stdin:
    try: out = {"value": tomllib.loads(json.loads(line))}
    except Exception as e: out = {"error": str(e)}
    print(json.dumps(out, default=str), flush=True)
`;
export const tomlReader = () => {
  const p = spawn("python3", ["-c", CODE], { stdio: ["pipe", "pipe", "inherit"] }); const waiting = []; let buf = "";
  p.stdout.on("data", (d) => { buf += d; for (let i; (i = buf.indexOf("\n")) >= 0; ) { waiting.shift()?.(JSON.parse(buf.slice(0, i))); buf = buf.slice(i + 1); } });
  p.on("exit", () => { for (const w of waiting.splice(0)) w({ error: "no parser" }); });
  return { read: (text) => new Promise((r) => { waiting.push(r); p.stdin.write(`${JSON.stringify(text)}\n`); }), close: () => p.kill() };
};
