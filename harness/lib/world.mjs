// Light-weight browser stand-in for code that needs storage, cookies, fetch and
// timers but no DOM. Storage objects may be shared by several "page loads".
import { Clock } from './clock.mjs';
export class MemStorage {
  constructor(init) { this.m = new Map(init ? Object.entries(init) : []); this.writes = []; this.failSet = null; this.failGet = null; this.log = null; }
  get length() { return this.m.size; }
  key(i) { return [...this.m.keys()][i] ?? null; }
  getItem(k) { if (this.failGet && this.failGet(String(k))) throw new Error('storage read failure'); k = String(k); return this.m.has(k) ? this.m.get(k) : null; }
  setItem(k, v) { if (this.failSet && this.failSet(String(k), String(v))) { const e = new Error('QuotaExceededError'); e.name = 'QuotaExceededError'; throw e; } this.m.set(String(k), String(v)); if (this.log) this.log.push(['set', String(k), String(v)]); }
  removeItem(k) { this.m.delete(String(k)); if (this.log) this.log.push(['remove', String(k)]); }
  clear() { this.m.clear(); }
  dump() { return Object.fromEntries([...this.m].sort()); }
}
export class CookieJar {
  constructor(init) { this.m = new Map(init ? Object.entries(init) : []); }
  get text() { return [...this.m].map(([k, v]) => `${k}=${v}`).join('; '); }
  set(line) {
    const [pair, ...attrs] = line.split(';');
    const i = pair.indexOf('='); const k = pair.slice(0, i).trim(); const v = pair.slice(i + 1).trim();
    const gone = attrs.some((a) => { const [n, x] = a.split('='); const name = n.trim().toLowerCase(); return (name === 'expires' && new Date(x).getTime() < 1e12 * 1.0) || (name === 'max-age' && Number(x) <= 0); });
    if (gone) this.m.delete(k); else this.m.set(k, v);
  }
}
export function makePage({ bundle, clock = new Clock(), local = new MemStorage(), session = new MemStorage(), cookies = new CookieJar(), url = 'https://www.example.com/', fetch, globals = {}, deny } = {}) {
  const u = new URL(url);
  const scope = {};
  const quiet = () => {};
  const doc = {
    get cookie() { return cookies.text; }, set cookie(v) { cookies.set(String(v)); },
    referrer: '', addEventListener: quiet, removeEventListener: quiet, createElement: () => ({ style: {}, setAttribute: quiet, appendChild: quiet }), getElementsByTagName: () => [], head: { appendChild: quiet }, body: null, currentScript: null,
  };
  Object.assign(scope, {
    window: scope, self: scope, global: scope, globalThis: scope,
    localStorage: local, sessionStorage: session, document: doc,
    location: u, navigator: { userAgent: 'Mozilla/5.0 (X11; Linux x86_64) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/120.0.0.0 Safari/537.36', language: 'en-US', languages: ['en-US'] },
    fetch: fetch || (() => new Promise(() => {})), XMLHttpRequest: undefined, process: undefined, require: undefined, Buffer: undefined, setImmediate: undefined,
    console: { log: quiet, info: quiet, warn: quiet, error: quiet, debug: quiet },
    addEventListener: quiet, removeEventListener: quiet, crypto: globalThis.crypto,
  }, globals);
  if (deny && deny !== 'none') for (const k of ['localStorage', 'sessionStorage']) Object.defineProperty(scope, k, { configurable: true, get: () => { if (deny === 'throws') throw new Error('SecurityError: access denied'); return undefined; } });
  clock.install(scope);
  const M = bundle(scope);
  return { scope, M, clock, local, session, cookies };
}
/** A scripted server: records requests; the handler returns {status, body, delay} | 'hang' | 'error'. */
export function makeServer(clock, handler) {
  const requests = [];
  const fetch = (url, init) => {
    const r = { url: String(url), method: init && init.method, headers: (init && init.headers) || {}, body: init && init.body, at: clock.now, index: requests.length };
    requests.push(r);
    const out = handler(r);
    return new Promise((res, rej) => {
      if (out === 'hang') return;
      const go = () => {
        if (out === 'error' || out.kind === 'error') rej(new TypeError('Failed to fetch'));
        else res({ status: out.status ?? 200, text: async () => (typeof out.body === 'string' ? out.body : JSON.stringify(out.body ?? {})), json: async () => out.body });
      };
      const d = (out && out.delay) || 0;
      if (d > 0) clock.at(clock.now + d, go); else go();
    });
  };
  return { requests, fetch };
}
export const decodeUser = (h) => JSON.parse(Buffer.from(h['X-Amp-Exp-User'].replace(/-/g, '+').replace(/_/g, '/'), 'base64').toString('utf8'));
export const decodeJson = (s) => JSON.parse(Buffer.from(s.replace(/-/g, '+').replace(/_/g, '/'), 'base64').toString('utf8'));
