// Page without a DOM for the DOM-free parts of experiment-tag: storage, a
// browser-like cookie jar, events, virtual clock. Several pages may share stores.
import { Clock } from './clock.mjs';
import { MemStorage } from './world.mjs';
import { Jar } from './jar.mjs';
export { Clock, MemStorage, Jar };
export function emitter() {
  const m = new Map();
  return {
    listeners: m,
    addEventListener(t, f) { if (!m.has(t)) m.set(t, new Set()); m.get(t).add(f); },
    removeEventListener(t, f) { m.get(t) && m.get(t).delete(f); },
    dispatch(t, e = {}) { const errs = []; for (const f of [...(m.get(t) || [])]) { try { typeof f === 'function' ? f(e) : f.handleEvent(e); } catch (x) { errs.push(x); } } return errs; },
  };
}
export function tagPage({ bundle, clock = new Clock(), local = new MemStorage(), session = new MemStorage(), jar, url = 'https://www.example.com/', globals = {}, random } = {}) {
  jar = jar || new Jar(clock);
  const quiet = () => {};
  const u = new URL(url);
  const win = emitter(), doc = emitter();
  const bodyChildren = [];
  const element = (tag) => { const e = { tagName: tag, style: {}, attrs: {}, setAttribute(k, v) { this.attrs[k] = v; }, appendChild: quiet, contentWindow: undefined, removed: false, remove() { this.removed = true; const i = bodyChildren.indexOf(this); if (i >= 0) bodyChildren.splice(i, 1); } }; return e; };
  const document = {
    get cookie() { return jar.text(u.hostname); }, set cookie(v) { jar.set(u.hostname, v, u.protocol === 'https:'); },
    referrer: '', visibilityState: 'visible', readyState: 'complete',
    addEventListener: doc.addEventListener, removeEventListener: doc.removeEventListener,
    createElement: element, getElementsByTagName: () => [], getElementById: () => null, querySelector: () => null,
    head: { appendChild: quiet }, documentElement: { appendChild: quiet },
    body: { children: bodyChildren, appendChild(e) { bodyChildren.push(e); page.onIframe && page.onIframe(e); return e; } },
  };
  const math = Object.create(Math); for (const k of Object.getOwnPropertyNames(Math)) Object.defineProperty(math, k, { value: Math[k], configurable: true, writable: true });
  if (random) math.random = random;
  let uid = 0;
  const scope = {};
  Object.assign(scope, {
    window: scope, self: scope, global: scope, globalThis: scope, Math: math,
    localStorage: local, sessionStorage: session, document, location: u,
    navigator: { userAgent: 'Mozilla/5.0 (X11; Linux x86_64) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/120.0.0.0 Safari/537.36', language: 'en-US', languages: ['en-US'] },
    history: { pushState: quiet, replaceState: quiet },
    fetch: () => new Promise(() => {}), process: undefined, require: undefined, Buffer: undefined, setImmediate: undefined, URL, URLSearchParams,
    console: { log: quiet, info: quiet, warn: quiet, error: quiet, debug: quiet },
    addEventListener: win.addEventListener, removeEventListener: win.removeEventListener,
    crypto: { randomUUID: () => `uuid-${clock.seq++}-${uid++}-${clock.now}`, getRandomValues: (a) => globalThis.crypto.getRandomValues(a) },
  }, globals);
  clock.install(scope);
  const page = { scope, win, doc, document, clock, local, session, jar, url: u, onIframe: null };
  page.M = bundle(scope);
  page.consent = (status) => page.M.gate.consentGate.manager.setStatus(status);
  page.requireConsent = () => { page.M.gate.consentGate.required = true; };
  return page;
}
