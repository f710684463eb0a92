// A MeticulousClient whose calls the driver answers, and proper-lockfile whose locks the driver grants.
import { deferred } from "../lib/util.mjs";

export class Api {
  constructor() { this.calls = []; this.auto = []; for (const m of ["get", "delete"]) this[m] = (path, config = {}) => this.#call(m, path, undefined, config); for (const m of ["post", "put", "patch"]) this[m] = (path, data, config = {}) => this.#call(m, path, data, config); }
  open(f = () => true) { return this.calls.filter((c) => c.open && f(c)); }
  #call(method, path, data, config) {
    const d = deferred();
    const params = Object.fromEntries(Object.entries(config.params ?? {}).filter(([, v]) => v !== undefined && v !== null).map(([k, v]) => [k, String(v)]));
    const c = { method: method.toUpperCase(), path: String(path), data, params, config, open: true, at: Date.now() };
    c.answer = (data, status = 200) => { c.open = false; d.resolve({ data, status, headers: {} }); };
    c.fail = (status, data = { message: `status ${status}` }) => { c.open = false; const e = new Error(typeof status === "number" ? `Request failed with status code ${status}` : String(status)); if (typeof status === "number") { e.response = { status, statusText: "", data, headers: {} }; e.config = { url: path, method }; } else e.code = status; d.reject(e); };
    c.reject = (e) => { c.open = false; d.reject(e); };
    config.signal?.addEventListener?.("abort", () => { if (c.open) { c.open = false; c.aborted = true; d.reject(config.signal.reason ?? new DOMException("aborted", "AbortError")); } });
    this.calls.push(c);
    for (const f of this.auto) if (f(c)) break;
    return d.promise;
  }
}

/** Locks are granted by the driver only; a lock whose holder died is freed as stale. */
export class Locks {
  constructor() { this.asked = []; this.held = new Map(); this.bad = []; }
  waiting() { return this.asked.filter((r) => r.state === "waiting"); }
  grant(r) { if (this.held.has(r.path)) throw new Error("held"); r.state = "held"; this.held.set(r.path, r);
    r.d.resolve(async () => { if (r.state !== "held") this.bad.push(`released twice: ${r.path}`); this.onRelease?.(r); r.state = "released"; this.held.delete(r.path); }); }
  refuse(r) { r.state = "refused"; r.d.reject(Object.assign(new Error("Lock file is already being held"), { code: "ELOCKED" })); }
  /** The process of r died. */
  die(r) { r.state = "dead"; if (this.held.get(r.path) === r) this.held.delete(r.path); }
  module() { const lock = (target, o = {}) => { const r = { target, path: o.lockfilePath ?? `${target}.lock`, options: o, d: deferred(), state: "waiting" }; this.asked.push(r); return r.d.promise; }; return { __esModule: true, lock, default: { lock } }; }
}
