// A visitor's browser for the web tag: jsdom pages running the bundle as a
// page script, with storage and cookies that survive page loads, a virtual
// clock, recorded navigations, requests, impressions and DOM mutations.
import { createRequire } from 'module';
import { REPO } from './paths.mjs';
import { Clock, settle } from './clock.mjs';
import { MemStorage, makeServer } from './world.mjs';
import { Jar } from './jar.mjs';
export { Clock, MemStorage, Jar, settle, makeServer };
const require = createRequire(REPO + '/package.json');
const { JSDOM, VirtualConsole } = require('jsdom');
const implOf = (wrapper) => { for (const s of Object.getOwnPropertySymbols(wrapper)) if (String(s) === 'Symbol(impl)') return wrapper[s]; throw new Error('no impl symbol'); };
export const API_KEY = 'client-abcdefghijkl';
export const SLICE = API_KEY.slice(0, 10);

export class Visitor {
  constructor({ script, clock = new Clock() }) { this.script = script; this.clock = clock; this.jar = new Jar(clock); this.locals = new Map(); this.tab = new Map(); this.uid = 0; this.pages = []; }
  local(origin) { if (!this.locals.has(origin)) this.locals.set(origin, new MemStorage()); return this.locals.get(origin); }
  session(origin) { if (!this.tab.has(origin)) this.tab.set(origin, new MemStorage()); return this.tab.get(origin); }
  newTab() { this.tab = new Map(); }
  /** Opens a document: everything but the SDK is there; call page.start() to run the tag. */
  open(url, opts = {}) { const p = new Page(this, url, opts); this.pages.push(p); return p; }
  close() { for (const p of this.pages) p.close(); this.pages = []; }
}
export class Page {
  constructor(visitor, url, { html = '<!doctype html><html><head></head><body></body></html>', server, referrer, integration = true, random } = {}) {
    const { clock, jar } = visitor; this.visitor = visitor; this.clock = clock;
    this.tracked = []; this.navigations = []; this.published = []; this.requests = []; this.observers = []; this.errors = []; this.closed = false;
    this.acceptTrack = () => true;
    const vc = new VirtualConsole(); vc.on('jsdomError', (e) => { this.errors.push(e); });
    this.warnings = []; vc.on('warn', (...a) => this.warnings.push(a.join(' '))); vc.on('error', (...a) => this.warnings.push(a.map(String).join(' ')));
    const dom = this.dom = new JSDOM(html, { url, referrer, runScripts: 'dangerously', virtualConsole: vc });
    const w = this.window = dom.window; const d = this.document = w.document;
    const u = new URL(url); const origin = u.origin;
    const def = (o, k, v) => Object.defineProperty(o, k, { value: v, writable: true, configurable: true, enumerable: true });
    clock.install(w);
    this.local = visitor.local(origin); this.session = visitor.session(origin);
    def(w, 'localStorage', this.local); def(w, 'sessionStorage', this.session);
    Object.defineProperty(d, 'cookie', { configurable: true, get: () => jar.text(u.hostname), set: (v) => { jar.set(u.hostname, v, u.protocol === 'https:'); } });
    this.hidden = false; Object.defineProperty(d, 'hidden', { configurable: true, get: () => this.hidden }); Object.defineProperty(d, 'visibilityState', { configurable: true, get: () => (this.hidden ? 'hidden' : 'visible') });
    def(w, 'crypto', { randomUUID: () => `uuid-${visitor.uid++}`, getRandomValues: (a) => { for (let i = 0; i < a.length; i++) a[i] = (visitor.uid++ * 7919 + i * 31) % 256; return a; } });
    let rnd = 0; w.Math.random = random || (() => { rnd = (rnd + 0.6180339887) % 1; visitor.uid++; return (rnd + visitor.uid * 0.7548776662) % 1; });
    const srv = makeServer(clock, (r) => (server ? server(r, this) : 'hang')); this.requests = srv.requests; def(w, 'fetch', (a, b) => { if (this.closed) return new Promise(() => {}); return srv.fetch(a, b); });
    const self = this;
    def(w, 'IntersectionObserver', class { constructor(cb, options = {}) { this.cb = cb; this.options = options; this.targets = new Set(); self.observers.push(this); } observe(e) { this.targets.add(e); } unobserve(e) { this.targets.delete(e); } disconnect() { this.targets.clear(); } takeRecords() { return []; } });
    let sheets = []; def(w, 'CSSStyleSheet', class { replaceSync(t) { this.text = t; } }); Object.defineProperty(d, 'adoptedStyleSheets', { configurable: true, get: () => sheets, set: (v) => { sheets = [...v]; } });
    const loc = implOf(w.location); const native = loc._locationObjectNavigate.bind(loc);
    loc._locationObjectNavigate = (target, flags = {}) => {
      const href = new w.URL(serialize(target)).href; const cur = w.location.href;
      if (href.includes('#') && href.split('#')[0] === cur.split('#')[0]) return native(target, flags);
      this.navigations.push({ url: href, from: cur, at: clock.now, replace: !!flags.replacement });
    };
    this.integration = { name: 'recorder', setup: async () => {}, getUser: () => this.integrationUser || {}, track: (e) => { if (!this.acceptTrack(e)) return false; this.tracked.push({ at: clock.now, url: w.location.href, event: JSON.parse(JSON.stringify(e)) }); return true; } };
    if (integration) w.experimentIntegration = this.integration;
  }
  run() { if (this.M) return this.M; this.visitor.script.runInContext(this.dom.getInternalVMContext()); this.M = this.window.__M; return this.M; }
  /** Runs the tag as its snippet does. */
  start({ flags = [], pages = {}, rules, config = {}, apiKey = API_KEY } = {}) {
    this.run();
    this.M.index.initialize(apiKey, { initialFlags: JSON.stringify(flags), pageObjects: JSON.stringify(pages), ...(rules ? { behavioralTargetingRules: JSON.stringify(rules) } : {}) }, { useDefaultNavigationHandler: true, ...config });
    return this;
  }
  get client() { const c = this.window.webExperiment; return c && !c.isStub ? c : null; }
  get url() { return this.window.location.href; }
  mutations() { const s = this.window.__domMutator; return s ? s.live.map((e) => e.mutation) : []; }
  activePages() { const c = this.client; const o = {}; if (!c) return o; const a = c.getActivePages(); for (const k of Object.keys(a).sort()) { const l = Object.keys(a[k]).sort(); if (l.length) o[k] = l; } return o; }
  impressions() { return this.tracked.map((t) => ({ flag: t.event.eventProperties.flag_key ?? t.event.eventProperties['[Experiment] Flag Key'], variant: t.event.eventProperties.variant ?? t.event.eventProperties['[Experiment] Variant'], at: t.at, url: t.url, type: t.event.eventType })); }
  overlay() { return this.document.adoptedStyleSheets.some((s) => /^\* \{ visibility: hidden/.test(s.text)); }
  async advance(ms) { await this.clock.advance(ms); }
  close() { if (this.closed) return; this.closed = true; this.window.__M = undefined; this.window.close(); this.dom = null; }
}
function serialize(u) { const whatwg = require('whatwg-url'); return whatwg.serializeURL(u); }
// ---- builders -------------------------------------------------------------
export const urlIs = (re) => [[{ op: 'regex match', selector: ['context', 'page', 'url'], values: [re] }]];
export const esc = (s) => s.replace(/[.*+?^${}()|[\]\\]/g, '\\$&');
export function pageObject(id, { re, conditions, type = 'url_change', value = {} } = {}) { return { id, name: `page ${id}`, ...(re ? { conditions: urlIs(re) } : conditions ? { conditions } : {}), trigger_type: type, trigger_value: value }; }
/** A flag of the web delivery method that gives every user `variant`. */
export function webFlag(key, variants, variant, { remote = false, blocking = false, segments, metadata, dependencies } = {}) {
  const vs = { off: { key: 'off', metadata: { default: true } } }; for (const [k, payload] of Object.entries(variants)) vs[k] = { key: k, value: k, ...(payload !== undefined ? { payload } : {}) };
  return { key, metadata: { deployed: true, evaluationMode: remote ? 'remote' : 'local', flagType: 'experiment', deliveryMethod: 'web', flagVersion: 3, experimentKey: 'exp-1', ...(blocking ? { blockingEvaluation: true } : {}), ...metadata }, ...(dependencies ? { dependencies } : {}), segments: segments || [{ metadata: { segmentName: 'All Other Users' }, variant }], variants: vs };
}
export const mutate = (list) => ({ action: 'mutate', data: { mutations: list.map(([id, scope]) => ({ selector: `.${id}`, attribute: 'html', action: 'append', value: id, ...(scope ? { metadata: { scope } } : {}) })) } });
export const redirect = (url, scope) => ({ action: 'redirect', data: { url, ...(scope ? { metadata: { scope } } : {}) } });
export const inject = (id, { js, css, html, scope } = {}) => ({ action: 'inject', data: { id, js, css, html, ...(scope ? { scope } : {}) } });
