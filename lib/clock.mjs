// A fake clock. install() replaces the global timers (and Date, performance.now) until uninstall().
export const real = {
  setTimeout: globalThis.setTimeout, clearTimeout: globalThis.clearTimeout,
  setInterval: globalThis.setInterval, clearInterval: globalThis.clearInterval,
  setImmediate: globalThis.setImmediate, Date: globalThis.Date,
  performanceNow: performance.now.bind(performance), fetch: globalThis.fetch,
  random: Math.random, AbortSignalTimeout: AbortSignal.timeout, queueMicrotask: globalThis.queueMicrotask,
};

const FS_BUSY = /FSReq|ZLIB|Zlib|FILEHANDLE|FileHandle|WORKER|DIRHANDLE|GETADDRINFO|RANDOMBYTES|HASHREQUEST|CRYPTO|SIGN|DERIVE|KEYGEN/i;
/** Lets everything that can run without the passing of (fake) time run to quiescence. */
export async function settle({ rounds = 4, io = false } = {}) {
  for (let i = 0; i < rounds; i++) {
    await new Promise((r) => real.setImmediate(r));
    if (io) {
      let n = 0;
      while (process.getActiveResourcesInfo().some((x) => FS_BUSY.test(x)) && n++ < 20000) {
        await new Promise((r) => real.setImmediate(r));
        i = 0;
      }
    }
  }
}

export class FakeClock {
  constructor(start = 1_700_000_000_000) { this.now = start; this.start = start; this.timers = new Map(); this.seq = 0; }
  install({ date = true } = {}) {
    const c = this; const RD = real.Date;
    const mk = (repeat) => (fn, ms = 0, ...args) => {
      const id = ++c.seq;
      let d = Number(ms); if (!(d >= 1)) d = repeat ? 1 : 0; if (d > 2147483647) d = 1;
      const handle = {
        id, ref: () => handle, unref: () => { const t = c.timers.get(id); if (t) t.unref = true; return handle; }, hasRef: () => true,
        refresh: () => { const t = c.timers.get(id); if (t) t.at = c.now + d; return handle; },
        close: () => { c.timers.delete(id); }, [Symbol.toPrimitive]: () => id, [Symbol.dispose]: () => { c.timers.delete(id); },
      };
      c.timers.set(id, { id, at: c.now + d, ms: d, repeat, fn, args, handle });
      return handle;
    };
    const clear = (h) => { if (h == null) return; c.timers.delete(typeof h === "object" ? h.id : Number(h)); };
    globalThis.setTimeout = mk(false); globalThis.clearTimeout = clear;
    globalThis.setInterval = mk(true); globalThis.clearInterval = clear;
    AbortSignal.timeout = (ms) => {
      const ac = new AbortController();
      globalThis.setTimeout(() => ac.abort(new DOMException("The operation was aborted due to timeout", "TimeoutError")), ms);
      return ac.signal;
    };
    if (date) {
      const FDate = function Date(...a) {
        if (!new.target) return new RD(c.now).toString();
        return Reflect.construct(RD, a.length === 0 ? [c.now] : a, new.target);
      };
      FDate.prototype = RD.prototype; // true Dates: instanceof works both ways
      FDate.now = () => c.now; FDate.parse = RD.parse; FDate.UTC = RD.UTC;
      Object.defineProperty(FDate, "length", { value: 7 });
      globalThis.Date = FDate;
      performance.now = () => c.now - c.start;
    }
    return this;
  }
  uninstall() {
    for (const k of ["setTimeout", "clearTimeout", "setInterval", "clearInterval", "Date"]) globalThis[k] = real[k];
    AbortSignal.timeout = real.AbortSignalTimeout;
    delete performance.now;
    if (performance.now() < 0) performance.now = real.performanceNow;
  }
  pending() { return [...this.timers.values()].sort((a, b) => a.at - b.at || a.id - b.id); }
  nextAt() { const p = this.pending(); return p.length ? p[0].at : undefined; }
  #fire(t) {
    if (t.repeat) t.at = this.now + t.ms; else this.timers.delete(t.id);
    if (typeof t.fn === "function") t.fn(...t.args);
  }
  /** Fires everything due up to now+ms, settling after each timer. */
  async advance(ms, opts) {
    const end = this.now + ms;
    for (;;) {
      const p = this.pending()[0];
      if (!p || p.at > end) break;
      this.now = Math.max(this.now, p.at);
      this.#fire(p);
      await settle(opts);
    }
    this.now = end;
    await settle(opts);
  }
  /** Fires the next timer only. Returns the time that passed, or undefined when there is none. */
  async fireNext(opts) {
    const p = this.pending()[0];
    if (!p) return undefined;
    const dt = Math.max(0, p.at - this.now);
    this.now = Math.max(this.now, p.at);
    this.#fire(p);
    await settle(opts);
    return dt;
  }
  /** Timers module double for require("timers/promises"). */
  timersPromises() {
    return {
      __esModule: true,
      setTimeout: (ms, value, { signal } = {}) => new Promise((res, rej) => {
        const h = globalThis.setTimeout(() => res(value), ms);
        signal?.addEventListener("abort", () => { globalThis.clearTimeout(h); rej(signal.reason); });
      }),
      setImmediate: (v) => new Promise((r) => real.setImmediate(() => r(v))),
    };
  }
}
