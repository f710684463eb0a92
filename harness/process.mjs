// Processes that exist only here: children that are spawned, and the process of the command line tool itself.
import { EventEmitter } from "node:events";
import { PassThrough } from "node:stream";
export class Child extends EventEmitter {
  constructor(file, args, options, death) { super(); Object.assign(this, { file, args, options, death, exitCode: null, signalCode: null, sent: [], pid: 4242, killed: false }); if (Array.isArray(options?.stdio)) { this.stdout = new PassThrough(); this.stderr = new PassThrough(); } else { this.stdout = this.stderr = null; } this.stdin = null; }
  get running() { return !this.unborn && this.exitCode === null && this.signalCode === null; }
  kill(sig = "SIGTERM") {
    if (!this.running) return false;
    if (sig === 0) return true;
    this.sent.push(sig); this.killed = true;
    if (this.death === "stays" || (this.death === "ignores" && sig !== "SIGKILL")) return true;
    queueMicrotask(() => this.end(null, sig)); return true;
  }
  end(code, signal = null) { if (!this.running) return; this.exitCode = code; this.signalCode = signal; this.stdout?.end(); this.stderr?.end(); if (this.unheard?.()) return; this.emit("exit", code, signal); this.emit("close", code, signal); }
  /** it cannot be spawned */
  fail() { this.unborn = true; this.exitCode = -11; this.pid = undefined; this.emit("error", Object.assign(new Error(`spawn ${this.file} EAGAIN`), { code: "EAGAIN", syscall: "spawn" })); }
}
export class Process extends EventEmitter {
  constructor(argv = ["node", "main.js"], env = {}) { super(); this.setMaxListeners(0); Object.assign(this, { argv, env, execPath: "/usr/bin/node", platform: "linux", pid: 77, ended: null, stdout: new PassThrough(), stderr: new PassThrough(), stdin: new PassThrough(), version: "v22.0.0", versions: { node: "22.0.0" }, exitCode: undefined }); }
  cwd() { return "/app"; }
  nextTick(f, ...a) { process.nextTick(f, ...a); }
  hrtime = process.hrtime; uptime() { return 1; } memoryUsage() { return { rss: 1 }; } emitWarning() {}
  exit(code) { if (this.ended === null) { this.ended = `exit ${code ?? this.exitCode ?? 0}`; this.emit("exit", code ?? 0); } return new Promise(() => {}); }
  kill(pid, sig) { if (pid === this.pid) this.signal(sig); return true; }
  /** a signal arrives: without anybody to handle it, that is the end, and nobody is told */
  signal(sig) { if (this.ended !== null) return; if (this.listenerCount(sig)) this.emit(sig, sig, 2); else this.ended = `signal ${sig}`; }
}
