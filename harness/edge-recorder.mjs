// Drives the Workers recorder/replayer shim (withMeticulous) from the outside: requests in, responses out,
// with the network, the service bindings and the clock replaced by doubles.
import { bundle, VERIF_DIR } from "../lib/bundle.mjs";
import { FakeClock, settle, real } from "../lib/clock.mjs";
import { deferred, track } from "../lib/util.mjs";

export const loadShim = () => bundle("backend-recorder-workerd/src/index.ts", {
  overrides: { "./coverage/replay-coverage": `${VERIF_DIR}harness/stubs/replay-coverage.ts` },
});
export const RECORD = "http://127.0.0.1:9999", REPLAY = "http://127.0.0.1:9670";
const RealRequest = globalThis.Request;
const consoles = ["debug", "error", "info", "log", "trace", "warn"];

/** A body that is enqueued by hand. */
export const handBody = () => { let c; const stream = new ReadableStream({ start(x) { c = x; } }); return { stream, push: (s) => c.enqueue(new TextEncoder().encode(s)), end: () => c.close(), fail: (e) => c.error(e) }; };

export class RecorderWorld {
  constructor(inst, { native } = {}) {
    this.clock = new FakeClock(Date.UTC(2026, 6, 1, 12, 0, 0)).install();
    this.symbols = new Set(Object.getOwnPropertySymbols(globalThis));
    this.consoleSymbols = new Set(Object.getOwnPropertySymbols(console));
    this.consoles = Object.fromEntries(consoles.map((k) => [k, console[k]]));
    this.logged = [];
    for (const k of consoles) console[k] = (...a) => { this.logged.push([k, ...a]); };
    this.saved = { random: Math.random, uuid: Object.getOwnPropertyDescriptor(globalThis.crypto, "randomUUID"), grv: Object.getOwnPropertyDescriptor(globalThis.crypto, "getRandomValues") };
    this.realUuid = globalThis.crypto.randomUUID.bind(globalThis.crypto); this.realGrv = globalThis.crypto.getRandomValues.bind(globalThis.crypto);
    native?.(this);
    this.calls = [];       // everything that reached the network: {url, method, headers, body, answer(resp), fail(err)}
    this.handlers = [];    // (call) => true when it was answered
    globalThis.fetch = (input, init) => this.#network(input, init, "fetch");
    this.networkFetch = globalThis.fetch;
    this.mod = inst();
    this.waits = [];
    const world = this;
    this.ctx = { waitUntil(p) { if (world.waitUntilThrows) throw new Error("waitUntil is not available"); const h = track(p); world.waits.push(h); } };
  }
  #network(input, init, via) {
    if (this.throwSync && via === "fetch") throw new TypeError("fetch failed");
    const req = input instanceof RealRequest && init === undefined ? input : new RealRequest(input, init);
    const d = deferred();
    const call = { url: req.url, method: req.method, headers: Object.fromEntries(req.headers), via, input, init, req, open: true, signal: (init && init.signal) ?? (input && input.signal) };
    call.answer = (r) => { call.open = false; d.resolve(r); };
    call.fail = (e) => { call.open = false; d.reject(e ?? new TypeError("fetch failed")); };
    call.signal?.addEventListener?.("abort", () => { if (call.open) { call.open = false; call.aborted = true; d.reject(call.signal.reason); } });
    this.calls.push(call);
    // the request body is read as a network would
    call.ready = (async () => { call.body = req.body ? await req.text().catch((e) => ({ error: String(e) })) : undefined; for (const h of this.handlers) if (h(call)) break; })();
    return d.promise;
  }
  binding(name) {
    const world = this;
    class Fetcher { fetch(input, init) { return world.#network(input, init, name); } }
    return new Fetcher();
  }
  to(origin) { return this.calls.filter((c) => c.url.startsWith(origin)); }
  /** loose: request bodies may still be arriving, so their calls are not waited for. */
  async settle() { await settle({ rounds: 5 }); if (this.loose) await settle({ rounds: 12 }); else await Promise.all(this.calls.map((c) => c.ready)); await settle({ rounds: 3 }); }
  /** The events reported so far, in order. */
  reported() { return this.calls.filter((c) => c.url.endsWith("/v1/events")).flatMap((c) => (c.body ? JSON.parse(c.body).events : [])); }
  close() {
    this.clock.uninstall(); globalThis.fetch = real.fetch;
    Math.random = this.saved.random;
    for (const [k, d] of [["randomUUID", this.saved.uuid], ["getRandomValues", this.saved.grv]]) { delete globalThis.crypto[k]; if (d) Object.defineProperty(globalThis.crypto, k, d); }
    for (const k of consoles) console[k] = this.consoles[k];
    for (const s of Object.getOwnPropertySymbols(globalThis)) if (!this.symbols.has(s)) delete globalThis[s];
    for (const s of Object.getOwnPropertySymbols(console)) if (!this.consoleSymbols.has(s)) delete console[s];
  }
}
