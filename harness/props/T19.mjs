import { bundleScript } from '../lib/build.mjs';
import { Visitor, settle, webFlag, pageObject, mutate } from '../lib/tagworld.mjs';
import { EffectWorld, effectCase, wanted, base, toFlags, FLAGS } from '../lib/effects.mjs';
import { toPageObjects } from '../lib/triggers.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const ORIGIN = 'https://www.example.com';
const MAPPED = ['a', 'a', 'b', 'b', 'control', 'off', 'nope'];
const mapArb = (fc) => fc.array(fc.tuple(fc.constantFrom(...FLAGS, ...FLAGS, ...FLAGS, 'unknown'), fc.constantFrom(...MAPPED)), { minLength: 1, maxLength: 5, size: 'max' }).map((l) => Object.fromEntries(l));
// how a document comes to be in preview
const entryArb = (fc) => fc.oneof(
  { weight: 7, arbitrary: fc.record({ how: fc.constant('url'), map: mapArb(fc), at: fc.constantFrom('first', 'last'), hash: fc.boolean() }) },
  { weight: 5, arbitrary: fc.record({ how: fc.constant('keep') }) },
  { weight: 1, arbitrary: fc.record({ how: fc.constant('leave') }) },
  { weight: 1, arbitrary: fc.record({ how: fc.constant('tab') }) },
  { weight: 1, arbitrary: fc.record({ how: fc.constant('not'), map: mapArb(fc), word: fc.constantFrom('false', '1', '') }) },
  { weight: 1, arbitrary: fc.record({ how: fc.constant('corrupt'), text: fc.constantFrom('{}', 'null', '"x"', '5', '[]', '{"previewFlags":null}', '{', '') }) });
const docArb = (fc) => fc.record({
  entry: entryArb(fc), fetch: fc.constantFrom('ok', 'ok', 'ok', 'status', 'missing', 'network', 'garbage', 'hang', 'empty'), after: fc.constantFrom(5, 60, 400), zone: fc.constantFrom('', '', 'arg', 'page', 'both'), stale: fc.boolean(),
  part: effectCase(fc, { kinds: ['url_change', 'url_change', 'url_change', 'manual', 'manual', 'analytics_event', 'element_appeared', 'user_interaction'], api: ['userApply', 'apply'], maxOps: 8 }),
});
const PREVIEW_KEY = 'amp-preview-mode';
const shownAs = (v) => (v === 'off' || v === undefined ? [undefined, 'off'] : [v]);
async function runDoc(doc, flags, v, state, ctx) {
  const c = { ...doc.part, flags, ops: doc.part.ops.map((o) => { const { gap, ...rest } = o; return rest; }), early: 0 };
  const e = doc.entry; if (e.how === 'tab') { v.newTab(); state.map = null; }
  let query = ''; if (e.how === 'url' || e.how === 'not') { const own = Object.entries(e.map).map(([k, x]) => `${k}=${x}`); const pv = `PREVIEW=${e.how === 'url' ? 'true' : e.word}`; query = (e.at === 'last' ? [...own, pv] : [pv, ...own]).join('&'); }
  if (e.how === 'leave') query = 'PREVIEW=true';
  if (e.how === 'url') state.map = { ...e.map }; if (e.how === 'leave') state.map = null;
  if (e.how === 'corrupt') { v.session(ORIGIN).setItem(PREVIEW_KEY, e.text); state.map = null; }
  const map = state.map || {}; const inPreview = state.map !== null;
  const [p, h] = c.path.split('#'); const hash = e.hash && !h ? '#top' : h ? '#' + h : ''; const sep = p.includes('?') ? '&' : '?';
  // the parameters of the address itself count as parameters of the preview
  const plain = e.how === 'url' || e.how === 'leave' ? p.split('?')[0] : p; const opened = plain + (query ? (plain.includes('?') ? '&' : '?') + query : '') + hash;
  c.path = (e.how === 'not' ? opened : plain + hash);
  const used = []; const real = { flags: null, pages: null };
  const world = new EffectWorld(v, c, { open: ORIGIN + opened, server: (r, fallback) => {
    if (!/\/web\/v1\/configs/.test(r.url)) return fallback(r);
    used.push(r); if (r.method && r.method !== 'GET') fail(`the configuration was requested by ${r.method}`);
    if (r.headers && r.headers.Authorization !== 'Api-Key client-abcdefghijkl') fail(`authorization ${show(r.headers)}`);
    if (doc.fetch === 'ok') return { status: 200, delay: doc.after, body: { flags: real.flags, pageObjects: real.pages } };
    if (doc.fetch === 'status') return { status: 500, delay: doc.after, body: 'x' }; if (doc.fetch === 'missing') return { status: 404, delay: doc.after, body: { flags: [], pageObjects: {} } }; if (doc.fetch === 'network') return 'network'; if (doc.fetch === 'garbage') return { status: 200, delay: doc.after, body: '<html>' }; if (doc.fetch === 'empty') return { status: 200, delay: doc.after, body: {} };
    return 'hang';
  } });
  const w = world; const page = w.page;
  real.flags = w.opts.flags; real.pages = w.opts.pages;
  const cfg = {}; if (doc.zone === 'arg' || doc.zone === 'both') cfg.serverZone = doc.zone === 'both' ? 'US' : 'EU'; if (doc.zone === 'page' || doc.zone === 'both') page.window.experimentConfig = { serverZone: 'EU' };
  // bundled configuration which is out of date, unless nothing else can be had
  const fetches = inPreview || e.how === 'leave'; const works = doc.fetch === 'ok';
  if (fetches && works && doc.stale) w.opts.flags = toFlags(Object.fromEntries(FLAGS.map((f) => [f, { ...c.flags[f], a: null, b: null, control: null }])));
  if (fetches && works && doc.stale) w.opts.pages = {};
  w.opts.config = cfg; w.start();
  if (fetches) { if (!page.overlay()) fail('the page is shown before the latest configuration is there'); await w.clock.advance(doc.fetch === 'hang' ? 10100 : doc.after + 20); }
  await w.calm(); w.reset(); w.checkAppeared();
  if (fetches ? used.length !== 1 : used.length) fail(`the latest configuration was requested ${used.length} times ${fetches ? 'in' : 'out of'} preview`);
  if (used.length) { const want = `https://api.lab.${doc.zone ? 'eu.' : ''}amplitude.com/web/v1/configs`; same(used[0].url, want, 'address of the configuration'); }
  same(page.url, w.url, 'visible URL');
  const own = (f) => Object.prototype.hasOwnProperty.call(map, f); const forced = (f) => own(f); const cur = (f) => (forced(f) ? (map[f] === 'nope' ? null : map[f]) : w.user[f]);
  let last = {}, visit = null, from = 0, shown = 0, reported = 0, overrides = 0;
  const check = (what, definite) => {
    const now = w.expected(); same(page.activePages(), now, `active pages after ${what}`);
    const applied = Object.fromEntries(FLAGS.map((f) => [f, cur(f)])); const want = wanted(w, applied, now); const got = w.observed();
    for (const k of ['mutations', 'sheets', 'scripts', 'made']) same(got[k], want[k], `${k} in effect after ${what} (pages ${show(now)}, forced ${show(map)}, user ${show(w.user)})`);
    for (const key of Object.keys(w.actions)) for (const act of w.actions[key]) if (act.t === 'inject' && act.spec.js) { const r = got.runs[act.id] || { run: 0, rm: 0 }; const on = want.live.has(act.id); if (r.run - r.rm !== (on ? 1 : 0)) fail(`injection ${act.id} ran ${r.run} times and was removed ${r.rm} times after ${what}`); }
    for (const f of FLAGS) if (forced(f) && w.effects(f, cur(f), now).length) { shown++; if (w.user[f] !== cur(f)) overrides++; }
    const list = page.impressions().slice(from); from += list.length; const b = base(w.url); if (b !== visit) { last = {}; visit = b; }
    for (const f of FLAGS) {
      const mine = list.filter((g) => g.flag === f); const x = cur(f);
      for (const g of mine) { if (x === null || !shownAs(x).includes(g.variant)) fail(`impression of ${f} with variant ${g.variant} after ${what}, ${forced(f) ? `forced to ${map[f]}` : `evaluated to ${x}`}`); if (base(g.url) !== b) fail(`impression of ${f} at ${g.url}`); }
      if (mine.length > 1) fail(`flag ${f} was reported ${mine.length} times after ${what}`);
      const pl = x && x !== 'off' ? c.flags[f][x] : null; const act = w.effects(f, x, now).length > 0; const any = (now[f] || []).length > 0;
      const must = forced(f) ? x !== null && (act || (!Array.isArray(pl) && any)) : w.eligible(f, x, now); const may = must || (forced(f) && x === 'control' && any);
      if (mine.length && (!may || last[f] === x)) fail(`flag ${f} (variant ${x}${forced(f) ? ', forced' : ''}) was reported after ${what} ${may ? 'again' : 'without being in effect'}: ${show(mine)}`);
      if (must && !mine.length && last[f] !== x) fail(`flag ${f} (variant ${x}${forced(f) ? ', forced' : ''}) in effect after ${what} was not reported`);
      if (mine.length) { last[f] = x; reported++; }
    }
    for (const g of list) if (!FLAGS.includes(g.flag)) fail(`impression of unknown flag ${g.flag}`);
    if (page.overlay()) fail(`the page is still hidden after ${what}`);
  };
  const way = `opening ${opened} (${e.how}, configuration: ${doc.fetch})`; check(way);
  for (const o of c.ops) { await w.step(o); check(`${way}, then ${show(o)}`); }
  const stored = page.session.getItem(PREVIEW_KEY); if (inPreview) same(JSON.parse(stored), { previewFlags: map }, 'stored preview');
  ctx.cls('forced in effect', shown > 0); ctx.cls('kept', e.how === 'keep' && inPreview); ctx.cls('fallback', fetches && !works); ctx.cls('reported', reported > 0);
  page.close(); return overrides > 0;
}
async function body(c, ctx, { script }) {
  const v = new Visitor({ script }); const state = { map: null }; let n = 0;
  try { for (const d of c.docs) { if (await runDoc(d, c.docs[0].part.flags, v, state, ctx)) n++; await settle(1); } ctx.nontrivial(n > 0); } finally { v.close(); await settle(1); }
}
const NOTICE_FLAGS = ['on', 'two', 'a b', '<b>bold</b>'], NOTICE_VALUES = ['a', 'b', 'off', 'none', '<img src=x onerror="window.__ran=1">', 'Testing', 'a b', '&amp;'];
const words = (t) => t.replace(/\s+/g, ' ').trim();
/** The notice which tells a visitor that forced variants are shown */
async function notice(c, ctx, { script }) {
  const v = new Visitor({ script });
  try {
    const flags = NOTICE_FLAGS.map((k) => webFlag(k, { a: [mutate([['x']])], b: undefined }, 'a')); const pages = Object.fromEntries(flags.map((f, i) => [f.key, { ['p' + i]: pageObject('p' + i, { re: '.*' }) }])); const map = Object.fromEntries(c.map);
    const query = new URLSearchParams([...c.map, ...(c.how === 'not' ? [['PREVIEW', 'no']] : c.how === 'url' || c.how === 'editor' ? [['PREVIEW', 'true']] : []), ...(c.how === 'editor' ? [['VISUAL_EDITOR', 'true']] : [])]);
    if (c.how === 'kept') v.session(ORIGIN).m.set(PREVIEW_KEY, JSON.stringify({ previewFlags: map }));
    const page = v.open(ORIGIN + '/p' + (c.how === 'kept' || c.how === 'api' ? '' : '?' + query), { server: (r) => (/configs/.test(r.url) ? { status: 200, delay: 3, body: { flags, pageObjects: pages } } : { status: 200, body: {} }) }); const w = page.window, d = page.document;
    Object.defineProperty(w, 'opener', { configurable: true, value: { closed: false, postMessage() {} } });
    const body = d.body; if (c.late) body.remove();
    page.start({ flags, pages }); const found = () => [...d.querySelectorAll('#amp-preview-modal')];
    const known = c.map.some(([k, x]) => NOTICE_FLAGS.includes(k) && ['a', 'b', 'off'].includes(x)); const due = known && (c.how === 'url' || c.how === 'kept'); let gone = false, dismissed = 0, went = -Infinity;
    const look = (what) => {
      const l = found(); if (gone !== 'until then' || l.length > 1) same(l.length, due && !gone ? 1 : 0, `notices ${what}`); if (w.__ran) fail(`a parameter ran as code ${what}`); same(page.errors.map(String), [], `errors of the page ${what}`);
      if (!l.length) return; const text = words(l[0].textContent); let at = 0; for (const [k, x] of Object.entries(map)) { for (const t of [k, x]) { const i = text.indexOf(words(t), at); if (i < 0) fail(`the notice ${show(text)} does not name ${show(t)} in its place ${what}`); at = i + words(t).length; } } same(l[0].querySelectorAll('img, b').length, 0, `elements made of parameters ${what}`);
    };
    if (c.late) { await v.clock.advance(c.late); same(found().length, 0, 'notices before there is a body'); d.documentElement.appendChild(body); }
    await v.clock.advance(1000); look('after the load');
    for (const o of c.ops) {
      if (o.op === 'go') { w.history.pushState({}, '', o.to); went = v.clock.now; if (gone) gone = 'until then'; } else if (o.op === 'dismiss') { const l = found(); if (l.length) { const b = l[0].querySelector('button'); b.click(); same(found().length, 0, 'notices right after the dismissal'); /* each page is announced */ gone = v.clock.now - went > 600 ? true : 'until then'; dismissed++; } } else if (o.op === 'api' && (c.how === 'api' || c.how === 'not')) await page.client.previewVariants({ keyToVariant: map });
      await v.clock.advance(o.ms); look(`after ${show(o)}`);
    }
    ctx.nontrivial(due || known); ctx.cls('notice', due); ctx.cls('dismissed', dismissed > 0); ctx.cls('several', due && c.map.filter(([k, x]) => NOTICE_FLAGS.includes(k) && ['a', 'b', 'off'].includes(x)).length > 1);
  } finally { v.close(); await settle(1); }
}
export default {
  id: 'T19', level: 'exploration',
  rule: 'a case is non-trivial when a forced variant other than the evaluated one was in effect',
  assumptions: ['preview parameters name flags', 'the overlay stand-in of dom-mutator records the mutations'],
  async setup() { return { script: await bundleScript('tag') }; },
  parts: [{ name: 'documents', what: 'sequences of documents in and out of preview, with failing configuration requests, triggers, navigations and user changes', runs: { quick: 400, thorough: 12000 }, expect: { 'forced in effect': 0.4, kept: 0.15, fallback: 0.15, reported: 0.4 },
    arb: (fc) => fc.record({ docs: fc.array(docArb(fc), { minLength: 2, maxLength: 4, size: 'max' }) }), check: body },
    { name: 'notice', what: 'a preview is announced by one notice which names the forced variants as text until it is dismissed, and nothing else is', runs: { quick: 400, thorough: 15000 }, expect: { notice: 0.3, dismissed: 0.1, several: 0.1 },
      arb: (fc) => fc.record({ how: fc.constantFrom('url', 'url', 'url', 'kept', 'kept', 'not', 'api', 'editor'), map: fc.uniqueArray(fc.tuple(fc.constantFrom(...NOTICE_FLAGS, ...NOTICE_FLAGS, 'unknown', '<i>u</i>'), fc.constantFrom('a', 'a', 'b', ...NOTICE_VALUES)), { minLength: 1, maxLength: 4, selector: (x) => x[0] }), late: fc.constantFrom(0, 0, 0, 100, 700, 3000), ops: fc.array(fc.oneof({ weight: 2, arbitrary: fc.record({ op: fc.constant('go'), to: fc.constantFrom('/a', '/b'), ms: fc.constantFrom(5, 800) }) }, { weight: 2, arbitrary: fc.record({ op: fc.constantFrom('dismiss', 'wait', 'api'), ms: fc.constantFrom(1, 700) }) }), { maxLength: 6 }) }), check: notice }],
};
