// Web variants with mutations and injections over trigger histories: generator,
// driver and reference model of the effects in place and impressions reported.
import { pagesArb, opArb, TriggerWorld, PATHS } from './triggers.mjs';
import { webFlag, settle } from './tagworld.mjs';
import { same, fail, show } from './runner.mjs';
export const FLAGS = ['f1', 'f2', 'f3'];
export const VARIANTS = ['off', 'control', 'a', 'b'];
const scopeArb = (fc) => fc.oneof({ weight: 3, arbitrary: fc.constant(null) }, { weight: 2, arbitrary: fc.uniqueArray(fc.integer({ min: 0, max: 6 }), { minLength: 2, maxLength: 5, size: 'max' }) });
const injectArb = (fc) => fc.record({ t: fc.constant('inject'), scope: scopeArb(fc), js: fc.constantFrom(true, true, true, false), css: fc.boolean(), html: fc.boolean(), fails: fc.constantFrom('', '', '', '', 'run', 'remove') });
const actionsArb = (fc) => fc.tuple(fc.option(fc.record({ t: fc.constant('mutate'), muts: fc.array(scopeArb(fc), { minLength: 1, maxLength: 3, size: 'max' }) }), { nil: null, freq: 4 }), fc.array(injectArb(fc), { maxLength: 2, size: 'max' }), fc.boolean()).map(([m, i, flip]) => { const l = [...(m ? [m] : []), ...i]; return flip ? l.reverse() : l; });
const payloadArb = (fc) => fc.oneof({ weight: 6, arbitrary: actionsArb(fc) }, { weight: 1, arbitrary: fc.constantFrom(null, 'text', 'object') });
const flagArb = (fc) => fc.record({ control: fc.oneof({ weight: 3, arbitrary: fc.constant(null) }, { weight: 1, arbitrary: payloadArb(fc) }), a: payloadArb(fc), b: payloadArb(fc), remote: fc.constantFrom(false, false, false, true) });
const userArb = (fc) => fc.record(Object.fromEntries(FLAGS.map((f) => [f, fc.constantFrom('a', 'a', 'b', 'b', 'control', 'off')])));
const subset = (fc) => fc.option(fc.subarray(FLAGS, { minLength: 1 }), { nil: null });
export const effectCase = (fc, { kinds = ['url_change', 'url_change', 'manual', 'manual', 'analytics_event', 'element_appeared', 'user_interaction'], weights = {}, api = [], apiWeight = 4, maxOps = 16 } = {}) => fc.record({
  flags: fc.record(Object.fromEntries(FLAGS.map((f) => [f, flagArb(fc)]))), user: userArb(fc), pages: pagesArb(fc, { kinds, flags: FLAGS, min: 4, max: 8 }), path: fc.constantFrom(...PATHS),
  initial: fc.array(fc.record({ e: fc.integer({ min: 0, max: 4 }), wrap: fc.boolean(), hidden: fc.constantFrom('', '', 'display:none') }), { maxLength: 3 }), early: fc.constantFrom(0, 0, 0, 1, 3),
  ops: fc.array(fc.tuple(fc.oneof({ weight: 6, arbitrary: opArb(fc, { weights: { nav: 6, back: 1, insert: 3, remove: 0, show: 1, class: 0, view: 0, click: 3, hover: 0, manual: 6, event: 3, scroll: 0, exit: 0, wait: 0, hidden: 0, ...weights } }) }, { weight: apiWeight, arbitrary: fc.oneof(...api.map((k) => API[k](fc))) }), fc.constantFrom(-1, -1, -1, -1, 0, 1, 2, 4, 7)).map(([o, k]) => { const { rest, ...op } = o; return ['nav', 'manual', 'event', 'click', 'apply', 'revert'].includes(op.op) && k >= 0 ? { ...op, gap: k } : op; }), { minLength: 5, maxLength: maxOps, size: 'max' }),
});
const API = {
  user: (fc) => fc.record({ op: fc.constant('user'), user: userArb(fc), apply: fc.constantFrom(true, true, false) }),
  userApply: (fc) => fc.record({ op: fc.constant('user'), user: userArb(fc), apply: fc.constant(true) }),
  apply: (fc) => fc.record({ op: fc.constant('apply'), flags: subset(fc) }),
  revert: (fc) => fc.record({ op: fc.constant('revert'), flags: subset(fc) }),
  preview: (fc) => fc.record({ op: fc.constant('preview'), map: fc.dictionary(fc.constantFrom(...FLAGS), fc.constantFrom('a', 'b', 'control', 'off', 'nope'), { minKeys: 1 }) }),
  tamper: (fc) => fc.record({ op: fc.constant('tamper'), i: fc.nat(3) }),
};
const pid = (s) => (s ? s.map((i) => `p${i}`) : undefined);
const injId = (f, v, n) => `inj-${f}-${v}-${n}`; const clean = (s) => s.replace(/-/g, '');
function actionsOf(f, v, p) { if (!Array.isArray(p)) return []; const out = []; p.forEach((a, n) => { if (a.t === 'mutate') a.muts.forEach((s, i) => out.push({ t: 'mutate', id: `${f}-${v}-m${i}`, scope: pid(s) })); else out.push({ t: 'inject', id: clean(injId(f, v, n)), scope: pid(a.scope), spec: a }); }); return out; }
function payloadOf(f, v, p) {
  if (p === null) return undefined; if (p === 'text') return 'text'; if (p === 'object') return { action: 'mutate' };
  return p.map((a, n) => (a.t === 'mutate' ? { action: 'mutate', data: { mutations: a.muts.map((s, i) => ({ selector: '.x', attribute: 'html', action: 'append', value: `${f}-${v}-m${i}`, ...(s ? { metadata: { scope: pid(s) } } : {}) })) } } : injectPayload(f, v, n, a)));
}
function injectPayload(f, v, n, a) {
  const js = a.js ? `window.__runs.push('run ' + id); utils.remove = function () { window.__runs.push('rm ' + id); if (html) html.remove(); ${a.fails === 'remove' ? "throw new Error('cleanup');" : ''} }; if (html) utils.insertElement(html, { parentSelector: '#w', insertBeforeSelector: null }); ${a.fails === 'run' ? "throw new Error('run');" : ''}` : '';
  return { action: 'inject', data: { id: injId(f, v, n), js, css: a.css ? `.${clean(injId(f, v, n))}{}` : '', html: a.html ? `<b class="made" data-inj="${clean(injId(f, v, n))}"></b>` : '', ...(a.scope ? { scope: pid(a.scope) } : {}) } };
}
export function toFlags(spec) {
  return FLAGS.map((f) => { const s = spec[f]; const vs = {}; for (const v of ['control', 'a', 'b']) vs[v] = payloadOf(f, v, s[v]);
    return webFlag(f, vs, 'off', { remote: s.remote, segments: [...['control', 'a', 'b'].map((v) => ({ metadata: { segmentName: v }, conditions: [[{ op: 'is', selector: ['context', 'user', 'user_properties', f], values: [v] }]], variant: v })), { metadata: { segmentName: 'All Other Users' }, variant: 'off' }] }); });
}
export const base = (u) => u.split(/[?#]/)[0];
/** Everything a page shows and reports, next to what it should. */
export class EffectWorld extends TriggerWorld {
  constructor(visitor, c, { config, open, server } = {}) {
    const flags = toFlags(c.flags); const remote = flags.filter((f) => f.metadata.evaluationMode === 'remote');
    const plain = (r) => { if (!/\/sdk\/v2\/flags/.test(r.url)) return 'hang'; return { status: 200, delay: 30, body: remote.map((f) => ({ ...f, metadata: { ...f.metadata, evaluationMode: 'local' } })) }; };
    super(visitor, c.pages, { flags, config, open, path: c.path, initial: c.initial, server: server ? (r) => server(r, plain) : plain });
    this.c = c; this.user = c.user; this.w.__runs = []; this.page.integrationUser = { user_properties: { ...c.user } };
    this.actions = {}; for (const f of FLAGS) for (const v of VARIANTS) this.actions[`${f} ${v}`] = v === 'off' ? [] : actionsOf(f, v, c.flags[f][v]);
  }
  active(a, f, pages) { const l = pages[f] || []; return a.scope ? a.scope.some((p) => l.includes(p)) : l.length > 0; }
  effects(f, v, pages) { return v === null ? [] : this.actions[`${f} ${v}`].filter((a) => this.active(a, f, pages)); }
  eligible(f, v, pages) { return ((v === 'off' || v === 'control') && (pages[f] || []).length > 0) || this.effects(f, v, pages).length > 0; }
  setUser(u) { this.user = u; this.page.integrationUser = { user_properties: { ...u } }; }
  async gap(k) { for (let i = 0; i < k; i++) await null; }
  /** Performs the step; returns whether the page is at rest afterwards. */
  async step(o) {
    const cl = this.page.client; let rest = o.gap === undefined;
    switch (o.op) {
      case 'user': this.setUser(o.user); if (o.apply) await Promise.race([cl.applyVariants(), this.settled()]); break;
      case 'apply': cl.applyVariants(o.flags ? { flagKeys: o.flags } : undefined); break;
      case 'revert': cl.revertVariants(o.flags ? { flagKeys: o.flags } : undefined); break;
      case 'preview': cl.previewVariants({ keyToVariant: o.map }); break;
      case 'tamper': { const l = this.made(); if (l.length) l[o.i % l.length].remove(); break; }
      default: await this.apply({ ...o, rest: false });
    }
    if (!rest) { await this.gap(o.gap); return false; }
    await this.calm(); return true;
  }
  async calm() { await this.settled(); this.checkAppeared(); await this.settled(); await settle(); }
  made() { return [...this.d.querySelectorAll('.made')]; }
  observed() {
    const runs = {}; for (const r of this.w.__runs) { const [k, id] = r.split(' '); (runs[id] = runs[id] || { run: 0, rm: 0 })[k]++; }
    return { mutations: this.page.mutations().map((m) => m.value).sort(), sheets: this.d.adoptedStyleSheets.map((s) => s.text).filter((t) => !/amp-preview-modal/.test(t)).sort(), scripts: [...this.d.querySelectorAll('script')].map((s) => s.id).filter((s) => s.startsWith('js-')).sort(), made: this.made().map((e) => e.dataset.inj).sort(), runs };
  }
}
/** What should be in place when, per flag, the given variant is applied. */
export function wanted(w, applied, pages) {
  const o = { mutations: [], sheets: [], scripts: [], made: [], live: new Set(), experiments: [] };
  for (const f of FLAGS) { const l = w.effects(f, applied[f], pages); if (l.length) o.experiments.push(f); for (const a of l) { if (a.t === 'mutate') { o.mutations.push(a.id); continue; } o.live.add(a.id); const s = a.spec; if (s.css) o.sheets.push(`.${a.id}{}`); if (s.js && s.fails !== 'run') o.scripts.push('js-' + a.id); if (s.js && s.html) o.made.push(a.id); } }
  for (const k of ['mutations', 'sheets', 'scripts', 'made', 'experiments']) o[k].sort();
  return o;
}
export { same, fail, show };
