import { settle, real } from "./clock.mjs";
export const deferred = () => { let resolve, reject; const promise = new Promise((a, b) => { resolve = a; reject = b; }); promise.catch(() => {}); return { promise, resolve, reject }; };
/** Tracks the outcome of a promise without ever leaving a rejection unhandled. */
export const track = (p) => {
  const o = { state: "pending", value: undefined, error: undefined };
  o.done = Promise.resolve(p).then((v) => { o.state = "ok"; o.value = v; }, (e) => { o.state = "error"; o.error = e; });
  return o;
};
/** Settles until pred() or the I/O subsystem is idle for several rounds. */
let waitedInVain = 0;
export async function settleUntil(pred, { maxMs = 15_000 } = {}) {
  // what never comes is a violation already: the next ones are not waited for as long
  const end = performanceNow() + (waitedInVain >= 3 ? Math.min(maxMs, 1000) : maxMs);
  while (!pred()) {
    await settle({ rounds: 2, io: true });
    if (performanceNow() > end) { waitedInVain++; return false; }
  }
  return true;
}
const pn = real.performanceNow;
export const performanceNow = () => pn();
export const sleepReal = (ms) => new Promise((r) => real.setTimeout(r, ms));
