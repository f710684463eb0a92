// A browser as puppeteer presents it, as far as recording uses one: pages are closed by the code, by the user or
// with the browser, and what takes long (loading, sending) ends when the driver says so.
import vm from "node:vm";
import { deferred } from "../lib/util.mjs";
const gone = (what) => Object.assign(new Error(`Protocol error (${what}): Target closed`), { name: "TargetCloseError" });
export const COOKIE = { name: "sid", value: "v", domain: "app.example", path: "/", expires: 2_000_000_000, size: 4, httpOnly: true, secure: true, session: false, sameSite: "Lax" };
/** Runs a page's function with the page's globals in place. */
const inPage = (page, f, args) => {
  const g = { window: page.window, document: page.window.document, addEventListener: page.window.addEventListener };
  const old = Object.fromEntries(Object.keys(g).map((k) => [k, Object.getOwnPropertyDescriptor(globalThis, k)]));
  for (const [k, v] of Object.entries(g)) Object.defineProperty(globalThis, k, { value: v, configurable: true, writable: true });
  try { return typeof f === "string" ? new vm.Script(f).runInNewContext({ ...g, ...page.window, window: page.window }) : f(...args); }
  finally { for (const [k, d] of Object.entries(old)) if (d) Object.defineProperty(globalThis, k, d); else delete globalThis[k]; }
};
class Page {
  constructor(browser, context) { Object.assign(this, { browser, context, open: true, at: "about:blank", on_: {}, exposed: {}, scripts: [], ops: {}, cookieJar: [COOKIE], bypass: false, timeout: 30_000 }); this.fresh(); context.list.push(this); browser.all.push(this); }
  /** a new document */
  fresh(origin = "https://app.example") {
    const loads = []; const page = this;
    const el = (tag) => ({ tag, style: {}, id: "", contentDocument: tag === "iframe" ? { html: "", open() {}, write(t) { this.html += t; }, close() {} } : null });
    const kids = []; const document = { location: { toString: () => page.at, get href() { return page.at; } }, getElementById: (id) => kids.find((k) => k.id === id) ?? null, createElement: el, body: { appendChild: (k) => (kids.push(k), k), append: (...k) => kids.push(...k) } };
    this.kids = kids; this.loads = loads;
    const listen = (e, f) => { if (e === "load") loads.push(f); };
    const location = { get href() { return page.at; }, set href(u) { page.sentTo = u; }, toString: () => page.at };
    this.window = { ...this.exposed, document, location, addEventListener: listen, origin };
    this.window.parent = this.window.top = this.window.self = this.window; this.window.window = this.window;
    // what the snippet is made of, here
    this.window.recorderStarts = () => { this.window.recorded = true; this.window.__meticulous ??= {}; this.window.__meticulous.flushPendingPayloads = () => this.pending("flush"); };
  }
  alive(what) { if (!this.open || this.browser.lost) throw gone(what); const f = this.browser.fault; if (f && what === f) { this.browser.fault = null; throw new Error(`odd: ${what}`); } }
  async pending(what) { this.alive(what); const d = deferred(); this.ops[what] = d; try { return await d.promise; } finally { delete this.ops[what]; } }
  on(e, f) { (this.on_[e] ??= []).push(f); return this; }
  once(e, f) { const g = (x) => { this.off(e, g); f(x); }; return this.on(e, g); }
  off(e, f) { this.on_[e] = (this.on_[e] ?? []).filter((g) => g !== f); return this; }
  emit(e, x) { for (const f of [...(this.on_[e] ?? [])]) f(x); }
  isClosed() { return !this.open; }
  url() { return this.at; }
  target() { return { createCDPSession: async () => { this.alive("cdp"); return { send: async (m) => (m === "Network.getAllCookies" || m === "Storage.getCookies" ? { cookies: this.cookieJar.map((c) => ({ ...c })) } : {}), detach: async () => {} }; } }; }
  mainFrame() { return (this.frame ??= { evaluate: async (f, ...a) => { this.alive("evaluate"); return inPage(this, f, a); }, page: () => this }); }
  setDefaultNavigationTimeout(ms) { this.timeout = ms; }
  async setBypassCSP(x) { this.alive("bypass"); this.bypass = x; }
  async exposeFunction(n, f) { this.alive("expose"); this.exposed[n] = f; this.window[n] = f; }
  async evaluateOnNewDocument(f, ...a) { this.alive("bootstrap"); this.scripts.push([f, a]); }
  async setCookie(...c) { this.alive("cookies"); if (c.length) (this.restored ??= []).push(...c); }
  async cookies() { this.alive("cookies-read"); return this.cookieJar; }
  async evaluate(f, ...a) { this.alive("evaluate"); if (this.evaluates) return this.evaluates(f, a); if (typeof f === "string" && this.browser.frameless) return "undefined"; return inPage(this, f, a); }
  async evaluateHandle(f, ...a) { this.alive("handle"); await inPage(this, f, a); this.alive("handle"); return { dispose: async () => {} }; }
  async goto(url, o) { this.alive("goto"); this.navigation = { url, waitUntil: o?.waitUntil }; this.arrive(url); await this.pending("goto"); return null; }
  /** a new document begins: the scripts run, the frame is announced, the document loads */
  arrive(url, origin) {
    this.at = url; this.fresh(origin);
    for (const [f, a] of this.scripts) inPage(this, f, a);
    this.emit("framenavigated", { parent: this.mainFrame(), evaluate: async () => { throw new Error("not the main frame"); } }); this.emit("framenavigated", this.mainFrame());
    queueMicrotask(() => queueMicrotask(() => { if (this.open) for (const f of this.loads) inPage(this, f, [{}]); }));
  }
  /** the user asks to finish */
  click() {
    const d = this.kids.find((k) => k.contentDocument)?.contentDocument?.html; if (!d) return "no button is shown";
    const script = /<script>([\s\S]*?)<\/script>/.exec(d)?.[1] ?? ""; const on = /onclick="([^"]*)"/.exec(d)?.[1]; if (!on) return "the button does nothing";
    this.clicked = new vm.Script(`${script.replace(/window\[("[^"]*")\]\?\.\(\)/, "(window[$1]?.())")}\n;(${on})`).runInNewContext({ window: this.window });
  }
  shut() { if (!this.open) return; this.open = false; for (const d of Object.values(this.ops)) d.reject(gone("closed")); this.emit("close"); }
  async close() { if (!this.open) return; if (this.browser.lost) throw gone("close"); await null; this.shut(); }
}
export class Browser {
  constructor() { this.all = []; this.contexts = []; this.closes = 0; this.fault = null; this.lost = false; this.launches = 0; this.default = this.newContext(false); new Page(this, this.default); }
  newContext(priv) {
    const c = { list: [], priv, newPage: async () => { if (this.lost) throw gone("newPage"); if (this.fault === "page") { this.fault = null; throw new Error("odd: page"); } const p = new Page(this, c); p.own = true; return p; }, pages: async () => c.list.filter((p) => p.open), close: async () => { if (this.lost) throw gone("context"); for (const p of c.list) p.shut(); } };
    this.contexts.push(c); return c;
  }
  async createBrowserContext() { if (this.fault === "context") { this.fault = null; throw new Error("odd: context"); } return this.newContext(true); }
  defaultBrowserContext() { return this.default; }
  async newPage() { return this.default.newPage(); }
  async pages() { return this.all.filter((p) => p.open); }
  on() { return this; } once() { return this; } off() { return this; } isConnected() { return !this.lost; }
  process() { return null; }
  async close() { this.closes++; for (const p of this.all) p.shut(); }
  /** it goes away by itself */
  vanish() { this.lost = true; for (const p of this.all) p.shut(); }
  get own() { return this.all.filter((p) => p.own); }
  module() {
    const launch = async (o) => { if (this.fault === "launch") { this.fault = null; throw new Error("odd: launch"); } this.launches++; this.options = o; return this; };
    const m = { launch, executablePath: () => "/chrome" }; return { ...m, default: m };
  }
}
