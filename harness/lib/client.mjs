// Helpers around ExperimentClient: a page with a scripted server, and the reference
// rules for variants (conversion, storage formats, source precedence).
import { makePage, MemStorage, CookieJar } from './world.mjs';
import { Clock, settle } from './clock.mjs';
import * as ref from './refeval.mjs';

export const own = (o, k) => (o && Object.prototype.hasOwnProperty.call(o, k) ? o[k] : undefined);
/** what a served/evaluated variant looks like to the user */
export function toVariant(e) {
  const v = {};
  if (e.key) v.key = e.key;
  if (e.value) v.value = e.value;
  if (e.payload) v.payload = e.payload;
  if (e.metadata) { v.metadata = e.metadata; if (e.metadata.experimentKey) v.expKey = e.metadata.experimentKey; }
  return v;
}
/** what a persisted (any format) or bundled variant means */
export function fromStored(x) {
  if (typeof x === 'string') return { key: x, value: x };
  if (x === null || typeof x !== 'object') return undefined;
  const v = {};
  if (x.key) v.key = x.key; else if (x.value) v.key = x.value;
  if (x.value) v.value = x.value;
  if (x.payload) v.payload = x.payload;
  if (x.metadata) v.metadata = x.metadata;
  if (x.metadata && x.metadata.experimentKey) v.expKey = x.metadata.experimentKey;
  else if (x.expKey) { v.expKey = x.expKey; v.metadata = { ...(x.metadata || {}), experimentKey: x.expKey }; }
  return v;
}
export const asVariant = (f) => (typeof f === 'string' ? { key: f, value: f } : f);
const empty = (v) => v === undefined || v === null || Object.keys(v).length === 0;

/**
 * The documented precedence. s = { mode:'localStorage'|'initialVariants', stored, initial, flags, fallbackVariant, context }
 * returns { variant, source, fallback:boolean, hasDefault:boolean }
 */
export function resolve(s, key, inline) {
  const flag = own(s.flags, key);
  const local = flag && flag.metadata && flag.metadata.evaluationMode === 'local';
  const evaluateLocal = () => {
    const order = ref.order(s.flags, [key]);
    const r = ref.evaluate(s.context, order);
    return own(r, key) ? toVariant(r[key]) : undefined;
  };
  const chain = (steps) => {
    let dflt;
    for (const [name, get] of steps) {
      const v = get();
      if (v === undefined || v === null) continue;
      if (name === 'stored' || name === 'eval') {
        if (v.metadata && v.metadata.default) { dflt = { variant: v, source: name }; continue; }
        return { variant: v, source: name, fallback: false, hasDefault: false };
      }
      if (name === 'config' && empty(v)) continue;
      const isFallback = !(name === 'initial' && s.mode === 'initialVariants' && steps[0][0] === 'initial');
      return { variant: asVariant(v), source: name, fallback: isFallback, hasDefault: Boolean(dflt) };
    }
    return dflt ? { ...dflt, fallback: false, hasDefault: true } : { variant: undefined, source: undefined, fallback: true, hasDefault: false };
  };
  const stored = ['stored', () => own(s.stored, key)];
  const initial = ['initial', () => own(s.initial, key)];
  const inl = ['inline', () => inline];
  const conf = ['config', () => (s.fallbackVariant === undefined ? undefined : asVariant(s.fallbackVariant))];
  const evalStep = ['eval', evaluateLocal];
  const remote = s.mode === 'initialVariants' ? [initial, stored, inl, conf] : [stored, inl, initial, conf];
  let out = local ? undefined : chain(remote);
  if (local || (!out.variant && flag)) out = chain([evalStep, inl, initial, conf]);
  return out;
}
export function resolveAll(s) {
  const out = {};
  const put = (m) => { for (const k of Object.keys(m || {})) out[k] = m[k]; };
  if (s.mode === 'initialVariants') { put(s.stored); put(s.initial); } else { put(s.initial); put(s.stored); }
  const locals = Object.keys(s.flags).filter((k) => s.flags[k].metadata && s.flags[k].metadata.evaluationMode === 'local');
  const r = ref.evaluate(s.context, ref.order(s.flags, Object.keys(s.flags)));
  for (const k of locals) if (own(r, k)) out[k] = toVariant(r[k]);
  return out;
}

/** A page whose server answers through `vardata(req, n)` and `flags(req, n)`: each returns {status, body, delay} | 'hang' | 'error'. */
export function clientPage({ bundle, clock = new Clock(), local, session, cookies, url, vardata, flags, globals, deny }) {
  const requests = [];
  const counts = { vardata: 0, flags: 0 };
  const fetch = (u, init) => {
    const url_ = new URL(String(u));
    const kind = url_.pathname.endsWith('/vardata') ? 'vardata' : 'flags';
    const r = { kind, url: String(u), host: url_.host, origin: url_.origin, headers: (init && init.headers) || {}, at: clock.now, n: counts[kind]++ };
    requests.push(r);
    const out = kind === 'vardata' ? (vardata ? vardata(r) : { body: {} }) : (flags ? flags(r) : { body: [] });
    return new Promise((res, rej) => {
      if (out === 'hang') return;
      const go = () => { r.answeredAt = clock.now; return out === 'error' || out.kind === 'error' ? rej(new TypeError('Failed to fetch')) : res({ status: out.status ?? 200, text: async () => (typeof out.body === 'string' ? out.body : JSON.stringify(out.body ?? {})) }); };
      if (out && out.delay > 0) clock.at(clock.now + out.delay, go); else go();
    });
  };
  const page = makePage({ bundle, clock, local: local || new MemStorage(), session: session || new MemStorage(), cookies: cookies || new CookieJar(), url, fetch, globals, deny });
  page.requests = requests;
  page.init = (key, config) => page.M.index.Experiment.initialize(key, config);
  page.initAnalytics = (key, config) => page.M.index.Experiment.initializeWithAmplitudeAnalytics(key, config);
  return page;
}
export { settle, Clock, MemStorage, CookieJar };
