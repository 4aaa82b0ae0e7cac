// Bundles sources of the current directory (a checkout) and evaluates them in a small simulated page.
import path from 'path'; import vm from 'vm'; import fs from 'fs'; import { createRequire } from 'module';
const vt = createRequire('/opt/veriftools/node/node_modules/'); const esbuild = vt('esbuild');
const REPO = process.cwd(); const P = (p) => path.join(REPO, 'packages', p);
const ALIAS = { '@amplitude/experiment-core': P('experiment-core/src/index.ts'), '@amplitude/experiment-js-client': P('experiment-browser/src/index.ts'), '@amplitude/analytics-connector': P('analytics-connector/src/index.ts'), '@amplitude/experiment-plugin-segment': P('plugin-segment/src/index.ts') };
const plugin = { name: 'a', setup(b) {
  b.onResolve({ filter: /^dom-mutator(\/|$)/ }, () => ({ path: 'dom-mutator', namespace: 'stub' }));
  b.onLoad({ filter: /.*/, namespace: 'stub' }, () => ({ contents: 'export const pauseGlobalObserver=()=>{},resumeGlobalObserver=()=>{},connectGlobalObserver=()=>{},disconnectGlobalObserver=()=>{};const live=(globalThis.__live=globalThis.__live||[]);export default {declarative:(m)=>{live.push(m);return {revert(){const i=live.indexOf(m);if(i>=0)live.splice(i,1);}}}};', loader: 'js' }));
  b.onResolve({ filter: /^@amplitude\// }, (a) => (ALIAS[a.path] ? { path: ALIAS[a.path] } : undefined));
  b.onResolve({ filter: /^src\// }, (a) => { const m = /packages\/([^/]+)\//.exec(a.importer || ''); if (!m) return; const base = P(`${m[1]}/${a.path}`); for (const c of [base + '.ts', base + '/index.ts', base]) if (fs.existsSync(c)) return { path: c }; });
} };
/** entries: {ns: 'package/src/file.ts'}; returns a function scope -> namespaces */
export async function load(entries) {
  const contents = Object.entries(entries).map(([n, f]) => `export * as ${n} from ${JSON.stringify(P(f))};`).join('\n');
  const r = await esbuild.build({ stdin: { contents, resolveDir: REPO, loader: 'ts' }, bundle: true, format: 'iife', globalName: '__M', platform: 'browser', write: false, nodePaths: [REPO + '/node_modules'], plugins: [plugin], target: 'es2020', logLevel: 'silent', define: { 'process.env.NODE_ENV': '"production"' }, charset: 'utf8' });
  const body = r.outputFiles[0].text.replace(/^\s*"use strict";/, '');
  return new vm.Script(`(function(s){with(s){return (function(){"use strict";\n${body}\nreturn __M;}).call(undefined)}})`).runInThisContext();
}
export class Storage { constructor() { this.m = new Map(); } get length() { return this.m.size; } key(i) { return [...this.m.keys()][i] ?? null; } getItem(k) { return this.m.has(k) ? this.m.get(k) : null; } setItem(k, v) { this.m.set(k, String(v)); } removeItem(k) { this.m.delete(k); } clear() { this.m.clear(); } }
export function page({ local = new Storage(), session = new Storage(), fetch, cookie = '', url = 'https://www.example.com/', extra = {} } = {}) {
  const s = {}; const q = () => {}; const document = { cookie, referrer: '', addEventListener: q, removeEventListener: q, createElement: () => ({ style: {}, setAttribute: q }), head: { appendChild: q } };
  Object.assign(s, { window: s, self: s, global: s, globalThis: s, localStorage: local, sessionStorage: session, document, location: new URL(url), navigator: { userAgent: 'Mozilla/5.0 Chrome/120', language: 'en-US', languages: ['en-US'] }, fetch: fetch || (() => new Promise(q)), XMLHttpRequest: undefined, process: undefined, require: undefined, Buffer: undefined, addEventListener: q, removeEventListener: q, console: { log: q, info: q, warn: q, error: q, debug: q }, setTimeout, setInterval, clearTimeout, clearInterval, Date, performance }, extra);
  return s;
}
export const sleep = (ms) => new Promise((r) => setTimeout(r, ms));
export const response = (body, status = 200) => ({ status, text: async () => JSON.stringify(body), json: async () => body });
export async function demo(fn) { try { await fn(); console.log('ok'); process.exit(0); } catch (e) { console.error(String(e && e.stack || e)); process.exit(1); } }
/** The same bundle as a script for jsdom windows (it sets window.__M). */
export async function script(entries) {
  const contents = Object.entries(entries).map(([n, f]) => `export * as ${n} from ${JSON.stringify(P(f))};`).join('\n');
  const r = await esbuild.build({ stdin: { contents, resolveDir: REPO, loader: 'ts' }, bundle: true, format: 'iife', globalName: '__M', platform: 'browser', write: false, nodePaths: [REPO + '/node_modules'], plugins: [plugin], target: 'es2020', logLevel: 'silent', define: { 'process.env.NODE_ENV': '"production"' }, charset: 'utf8' });
  return new vm.Script(r.outputFiles[0].text);
}
/** A page in jsdom which records navigations, mutations in effect and tracked impressions. */
export function tab(url, { local = new Storage(), session = new Storage(), fetch, html = '<!doctype html><html><head></head><body></body></html>' } = {}) {
  const require = createRequire(REPO + '/package.json'); const { JSDOM, VirtualConsole } = require('jsdom'); const vc = new VirtualConsole(); const errors = []; vc.on('jsdomError', (e) => errors.push(e));
  const dom = new JSDOM(html, { url, runScripts: 'dangerously', virtualConsole: vc, pretendToBeVisual: true }); const w = dom.window; const set = (k, v) => Object.defineProperty(w, k, { value: v, writable: true, configurable: true });
  set('localStorage', local); set('sessionStorage', session); set('fetch', fetch || (() => new Promise(() => {}))); set('IntersectionObserver', class { observe() {} unobserve() {} disconnect() {} });
  let n = 0; set('crypto', { randomUUID: () => `00000000-0000-4000-8000-${String(n++).padStart(12, '0')}`, getRandomValues: (a) => a.fill(7) });
  let sheets = []; set('CSSStyleSheet', class { replaceSync(t) { this.text = t; } }); Object.defineProperty(w.document, 'adoptedStyleSheets', { configurable: true, get: () => sheets, set: (v) => { sheets = [...v]; } });
  const loc = w.location[Object.getOwnPropertySymbols(w.location).find((s) => String(s) === 'Symbol(impl)')]; const navs = []; const whatwg = require('whatwg-url');
  loc._locationObjectNavigate = (to) => { navs.push(whatwg.serializeURL(to)); };
  const tracked = []; w.experimentIntegration = { name: 'demo', setup: async () => {}, getUser: () => ({ user_id: 'u' }), track: (e) => { tracked.push(JSON.parse(JSON.stringify(e.eventProperties))); return true; } };
  const t = { dom, window: w, document: w.document, navs, tracked, errors, local, session, effects: () => Array.from(w.__live || [], (m) => m.value), run(s) { s.runInContext(dom.getInternalVMContext()); t.M = w.__M; return t; }, start({ flags = [], pages = {}, rules, config = {} } = {}) { t.M.index.initialize('client-abcdefghijkl', { initialFlags: JSON.stringify(flags), pageObjects: JSON.stringify(pages), ...(rules ? { behavioralTargetingRules: JSON.stringify(rules) } : {}) }, { useDefaultNavigationHandler: true, ...config }); return t; }, get client() { return w.webExperiment; } };
  return t;
}
export const webFlag = (key, payloads, segments, more = {}) => { const { metadata, ...rest } = more; return { key, metadata: { deployed: true, evaluationMode: 'local', flagType: 'experiment', deliveryMethod: 'web', flagVersion: 1, ...metadata }, segments: segments || [{ metadata: { segmentName: 'All Other Users' }, variant: Object.keys(payloads)[0] }], variants: { off: { key: 'off', metadata: { default: true } }, ...Object.fromEntries(Object.entries(payloads).map(([k, payload]) => [k, { key: k, value: k, payload }])) }, ...rest }; };
export const everywhere = (id, re = '.*', type = 'url_change', value = {}) => ({ [id]: { id, name: id, conditions: [[{ op: 'regex match', selector: ['context', 'page', 'url'], values: [re] }]], trigger_type: type, trigger_value: value } });
export const mutate = (value) => ({ action: 'mutate', data: { mutations: [{ selector: '.x', attribute: 'html', action: 'append', value }] } });
export const TAG = { index: 'experiment-tag/src/index.ts' };
