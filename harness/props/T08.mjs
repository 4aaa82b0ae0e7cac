import { bundleScript } from '../lib/build.mjs';
import { Visitor, webFlag, settle, pageObject } from '../lib/tagworld.mjs';
import { pagesArb, opArb, TriggerWorld, KINDS, PATHS } from '../lib/triggers.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const FLAGS = ['f1', 'f2'].map((k) => webFlag(k, { on: undefined }, 'on'));
const body = async (c, ctx, { script }) => {
  const v = new Visitor({ script });
  try {
    const w = new TriggerWorld(v, c.pages, { flags: FLAGS, path: c.path, initial: c.initial });
    w.start(); await w.settled(); const seen = new Set(); let activated = 0, reset = 0, prev = {};
    const check = (what) => { const e = w.expected(); same(w.page.activePages(), e, `active pages ${what} at ${w.url}`); for (const k of Object.keys(e)) for (const id of e[k]) if (!seen.has(id)) { seen.add(id); if (c.pages.find((p) => p.id === id).trigger.type !== 'url_change') activated++; } const n = Object.values(e).flat().length; if (n < prev.n && w.navs > prev.navs) reset++; prev = { n, navs: w.navs }; };
    check('after load');
    for (const o of c.ops) { await w.apply(o); check(`after ${show(o)}`); }
    ctx.nontrivial(activated > 0); ctx.cls('activated', activated > 0); ctx.cls('reset', reset > 0); for (const id of seen) ctx.cls(c.pages.find((p) => p.id === id).trigger.type);
  } finally { v.close(); await settle(1); }
};
/** Pages that never come to rest: what appears is still noticed within a second. */
const busyBody = async (c, ctx, { script }) => {
  const v = new Visitor({ script });
  try {
    const late = c.late.map((l, i) => ({ ...l, cls: `late${i}`, id: `p${i}` }));
    const pages = { f1: { t: pageObject('t', { type: 'element_appeared', value: { selector: '#feed' } }) }, f2: Object.fromEntries(late.map((l) => [l.id, pageObject(l.id, { type: l.type, value: { selector: '.' + l.cls, ...(l.type === 'element_visible' ? { visibilityRatio: 0.5 } : {}) } })])) };
    const page = v.open('https://www.example.com/a', { html: '<!doctype html><html><head></head><body><div id="feed"></div><div id="root"></div></body></html>' }); const d = page.document, t0 = v.clock.now;
    page.start({ flags: FLAGS, pages }); await v.clock.advance(10);
    const feed = d.getElementById('feed'); let n = 0; const disturb = () => { for (let k = 0; k < c.burst; k++) { if (c.noise === 'class') d.body.classList.toggle('n'); else if (c.noise === 'style') feed.style.top = `${n}px`; else if (n % 2) feed.firstChild.remove(); else feed.appendChild(d.createElement('i')); n++; } };
    if (c.calm) v.clock.at(t0 + 25, disturb);
    for (let t = c.calm ? 400 : 20; t < c.until; t += c.every) v.clock.at(t0 + t, disturb);
    const put = (l) => { const e = d.createElement('p'); e.className = l.cls; if (l.how === 'hidden') e.style.display = 'none'; (l.how === 'inside' ? feed.parentNode : d.getElementById('root')).appendChild(e); if (l.how === 'crowd') for (let k = 0; k < 1050; k++) d.getElementById('root').appendChild(d.createElement('i')); l.el = e; if (l.how === 'hidden') e.style.display = ''; };
    for (const l of late) v.clock.at(t0 + l.at, () => put(l));
    const seen = (now) => late.filter((l) => l.at + 1000 <= now); const steps = [...new Set(late.flatMap((l) => [l.at - 1, l.at + 1000]))].sort((a, b) => a - b); let inNoise = 0;
    for (const t of steps) {
      await v.clock.advance(t0 + t - v.clock.now); for (const ob of page.observers) { const es = [...ob.targets].filter((e) => e.isConnected).map((target) => ({ target, isIntersecting: true, intersectionRatio: 1, time: v.clock.now })); if (es.length) ob.cb(es, ob); } await settle(2);
      const got = page.activePages().f2 || []; for (const l of late) { if (l.at > t && got.includes(l.id)) fail(`page ${l.id} is active although its element is not there yet`); if (seen(t).includes(l) && !got.includes(l.id)) fail(`page ${l.id} (${l.type}) is not active ${t - l.at} ms after its element appeared, while the page changes every ${c.every} ms`); if (seen(t).includes(l) && t < c.until && (!c.calm || l.at > 300)) inNoise++; }
      same(page.activePages().f1, ['t'], 'page of the element that is always there');
    }
    ctx.nontrivial(inNoise > 0); ctx.cls('while busy', inNoise > 0);
  } finally { v.close(); await settle(1); }
};
const initialArb = (fc, inside = fc.boolean()) => fc.array(fc.record({ e: fc.integer({ min: 0, max: 4 }), wrap: inside, hidden: fc.constantFrom('', '', 'display:none') }), { minLength: 1, maxLength: 4, size: 'max' });
export default {
  id: 'T08', level: 'exploration',
  rule: 'a case is non-trivial when a page with a trigger other than the URL became active',
  assumptions: ['content in view is replaced on navigation (an observer does not report again an element that stays in view)', 'hover and focus end before a navigation', 'the page uses the default navigation handler'],
  async setup() { return { script: await bundleScript('tag') }; },
  parts: [
    { name: 'all', what: 'all trigger kinds, all events', runs: { quick: 500, thorough: 12000 }, expect: { activated: 0.3 },
      arb: (fc) => fc.record({ pages: pagesArb(fc), path: fc.constantFrom(...PATHS), initial: initialArb(fc), ops: fc.array(opArb(fc), { minLength: 5, maxLength: 16, size: 'max' }) }), check: body },
    { name: 'elements', what: 'elements appearing, in view, scrolled to', runs: { quick: 300, thorough: 8000 }, expect: { activated: 0.4 },
      arb: (fc) => fc.record({ pages: pagesArb(fc, { kinds: ['element_appeared', 'element_visible', 'scrolled_to'] }), path: fc.constantFrom(...PATHS), initial: initialArb(fc), ops: fc.array(opArb(fc, { weights: { click: 0, hover: 0, manual: 0, event: 0, exit: 0, wait: 0, hidden: 0, view: 6, open: 2, nav: 2, scroll: 2 } }), { minLength: 5, maxLength: 16, size: 'max' }) }), check: body },
    { name: 'interaction', what: 'clicks, hovers, focus, exits, time', runs: { quick: 300, thorough: 8000 }, expect: { activated: 0.4 },
      arb: (fc) => fc.record({ pages: pagesArb(fc, { kinds: ['user_interaction', 'user_interaction', 'exit_intent', 'time_on_page'] }), path: fc.constantFrom(...PATHS), initial: initialArb(fc, fc.constantFrom(true, true, false)), ops: fc.array(opArb(fc, { weights: { view: 0, scroll: 0, manual: 0, event: 0, class: 0, show: 0, hidden: 3, click: 5, hover: 7, insert: 3 } }), { minLength: 5, maxLength: 16, size: 'max' }) }), check: body },
    { name: 'inside', what: 'moves between the elements inside a hovered or focused one', runs: { quick: 150, thorough: 4000 }, expect: { activated: 0.3 },
      arb: (fc) => fc.record({ pages: pagesArb(fc, { kinds: ['user_interaction'], max: 4 }).map((l) => l.map((p, i) => ({ ...p, cond: i ? p.cond : null, trigger: { ...p.trigger, value: { ...p.trigger.value, selector: p.id === 'p1' ? '.box' : '.wrap', interactionType: p.trigger.value.interactionType === 'focus' ? 'focus' : 'hover' } } }))), path: fc.constantFrom(...PATHS), initial: fc.constant([0, 1, 4].map((e) => ({ e, wrap: true, hidden: '' }))), ops: fc.array(opArb(fc, { weights: { view: 0, scroll: 0, manual: 0, event: 0, class: 0, show: 0, hidden: 0, click: 0, exit: 0, wait: 1, hover: 9, insert: 1, remove: 0, nav: 2, back: 0 } }), { minLength: 3, maxLength: 8, size: 'max' }) }).map((c) => ({ ...c, ops: c.ops.map((o) => (o.ms2 === undefined ? o : { ...o, e: [0, 1, 4][o.e % 3], to: o.to === undefined ? undefined : [1, 4, 0][o.to % 3] })) })), check: body },
    { name: 'busy', what: 'elements appearing on pages that change all the time', runs: { quick: 40, thorough: 2000 }, expect: { 'while busy': 0.5 },
      arb: (fc) => fc.record({ every: fc.constantFrom(20, 45, 70, 95), calm: fc.boolean(), until: fc.constantFrom(800, 2600, 2600), burst: fc.constantFrom(1, 1, 3), noise: fc.constantFrom('class', 'style', 'children'), late: fc.array(fc.record({ at: fc.constantFrom(5, 120, 333, 700, 1500, 2100), type: fc.constantFrom('element_appeared', 'element_appeared', 'element_visible'), how: fc.constantFrom('plain', 'inside', 'plain', 'crowd', 'hidden') }), { minLength: 1, maxLength: 3 }) }), check: busyBody },
  ],
};
