import { bundleScript } from '../lib/build.mjs';
import { Visitor, settle, webFlag, pageObject, inject } from '../lib/tagworld.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const ORIGIN = 'https://www.example.com', LIMIT = 10, WINDOW = 1000;
const ITEMS = ['e1', 'e2', 'e3', 'e4'], BOXES = ['c1', 'c2'], CLS = ['', 'x', 'y', 'x y'];
const WAITS = ['#c1', '#c2', '.x', '.y', '#c1 .x', '#c2 > #e3', '#e1.y', '[data-on]', 'body', '.box', 'html.theme', '.theme .x', 'html.theme'];
const PARENTS = ['#c1', '#c2', '.box', '#c1.open', 'body', '.theme #c1', '.theme .box'];
const BEFORE = [null, null, '.x', '.y', '#e3'];
const item = (fc) => fc.constantFrom(...ITEMS), box = (fc) => fc.constantFrom(...BOXES);
const prim = (fc) => fc.oneof(
  { weight: 5, arbitrary: fc.record({ op: fc.constant('put'), id: item(fc), into: box(fc), cls: fc.constantFrom(...CLS), first: fc.boolean() }) },
  { weight: 2, arbitrary: fc.record({ op: fc.constant('drop'), id: item(fc) }) },
  { weight: 2, arbitrary: fc.record({ op: fc.constant('box'), id: box(fc), on: fc.boolean(), cls: fc.constantFrom('box', 'box open', '') }) },
  { weight: 3, arbitrary: fc.record({ op: fc.constant('class'), id: fc.constantFrom(...ITEMS, ...BOXES), cls: fc.constantFrom(...CLS, 'box', 'box open') }) },
  { weight: 1, arbitrary: fc.record({ op: fc.constant('mark'), id: item(fc), on: fc.boolean() }) },
  { weight: 2, arbitrary: fc.record({ op: fc.constant('empty'), id: box(fc) }) }, { weight: 3, arbitrary: fc.record({ op: fc.constant('theme'), on: fc.boolean() }) }, { weight: 1, arbitrary: fc.constant({ op: 'body' }) },
  { weight: 3, arbitrary: fc.record({ op: fc.constant('out'), n: fc.nat(3) }) });
const opArb = (fc) => fc.oneof(
  { weight: 8, arbitrary: fc.record({ op: fc.constant('batch'), list: fc.array(prim(fc), { minLength: 1, maxLength: 3 }) }) },
  { weight: 1, arbitrary: fc.record({ op: fc.constant('busy'), count: fc.integer({ min: 3, max: 25 }), gap: fc.constantFrom(0, 1, 30, 120) }) },
  { weight: 2, arbitrary: fc.record({ op: fc.constant('fight'), n: fc.nat(3), count: fc.integer({ min: 3, max: 24 }), gap: fc.constantFrom(0, 1, 50, 70, 95, 120), pause: fc.constantFrom(0, 0, 450, 700, 950) }) },
  { weight: 2, arbitrary: fc.record({ op: fc.constant('wait'), ms: fc.constantFrom(1, 500, 1000, 1500) }) },
  { weight: 1, arbitrary: fc.record({ op: fc.constant('go'), to: fc.constantFrom('/a', '/a/2', '/z') }) });
const specArb = (fc) => fc.record({ wait: fc.option(fc.constantFrom(...WAITS), { nil: undefined, freq: 5 }), insert: fc.option(fc.record({ parent: fc.constantFrom(...PARENTS), before: fc.constantFrom(...BEFORE) }), { nil: undefined, freq: 4 }), callback: fc.boolean() });
const code = (k, s) => `const n = ++window.__n; window.__log.push(['run', n, ${k}]); window.__els[n] = html; utils.remove = () => window.__log.push(['rm', n]);
${s.wait ? `utils.waitForElement(${JSON.stringify(s.wait)}).then((e) => window.__log.push(['found', n, e.id || e.localName]), (e) => window.__log.push(['wait rejected', n]));` : ''}
${s.insert ? `utils.insertElement(html, { parentSelector: ${JSON.stringify(s.insert.parent)}, insertBeforeSelector: ${JSON.stringify(s.insert.before)} }${s.callback ? `, () => window.__log.push(['ins', n])` : ''}).then(() => window.__log.push(['done', n]), () => window.__log.push(['insert rejected', n]));` : ''}`;
async function check(c, ctx, { script }) {
  const v = new Visitor({ script }); let found = 0, inserted = 0, again = 0, limited = 0, late = 0;
  try {
    const page = v.open(`${ORIGIN}${c.at}`, { html: `<!doctype html><html><head></head><body>${c.boxes.map(([id, cls, items]) => `<div id="${id}" class="${cls}">${items.map((i) => `<p id="${id === 'c1' ? i : 'k' + i}" class="x"></p>`).join('')}</div>`).join('')}</body></html>` });
    const w = page.window, d = page.document; w.__log = []; w.__els = {}; w.__n = 0;
    const flags = c.specs.map((s, k) => webFlag(`f${k}`, { on: [inject(`inj-${k}`, { js: code(k, s), html: `<section class="ins" id="ins${k}"></section>` })] }, 'on'));
    const pages = Object.fromEntries(c.specs.map((s, k) => [`f${k}`, { p: pageObject('p', { re: '/a' }) }]));
    const inst = new Map(); let read = 0, full = false;
    const nested = (s) => s.insert && s.insert.parent === 'body' && s.insert.before;
    const observe = (what) => {
      const log = w.__log.slice(read); read = w.__log.length;
      for (const e of log) { if (e[0] === 'run') inst.set(e[1], { k: e[2], s: c.specs[e[2]], live: true, times: [], waiting: Boolean(c.specs[e[2]].wait), done: false }); if (e[0] === 'rm') inst.get(e[1]).live = false; }
      const want = []; full = false;
      for (const [n, i] of inst) {
        if (!i.live) continue;
        if (i.waiting) { const e = d.querySelector(i.s.wait); if (e) { i.waiting = false; found++; if (what !== 'the start') late++; want.push(['found', n, e.id || e.localName]); } }
        if (i.s.insert && !nested(i.s)) {
          const { parent, before } = i.s.insert; const el = w.__els[n]; const p = d.querySelector(parent);
          const within = (ms) => i.times.filter((t) => v.clock.now - t < ms).length; let recent = within(WINDOW); if (within(WINDOW + 10) >= LIMIT && within(WINDOW - 10) < LIMIT) recent = d.contains(el) ? LIMIT - 1 : LIMIT; // at the very end of the second
          if (i.was) continue; // still where it was
          const b = p && before ? p.querySelector(before) : null;
          if (p && (!before || b) && recent < LIMIT) {
            if (!d.contains(el)) fail(`after ${what}: the element of injection ${n} is not in the page, although ${parent}${before ? ` with ${before}` : ''} is`);
            if (el.parentNode !== p) fail(`after ${what}: the element of injection ${n} is in ${el.parentNode.id || el.parentNode.localName}, not in ${parent}`);
            let next = el.nextElementSibling; while (next && next.classList.contains('ins')) next = next.nextElementSibling;
            if (next && next.localName === 'script') next = null;
            if (next !== b) fail(`after ${what}: the element of injection ${n} is before ${next && next.id}, not before ${before}`);
            if (i.times.length) again++; i.times.push(v.clock.now); inserted++;
            if (i.s.callback) want.push(['ins', n]); if (!i.done) { i.done = true; want.push(['done', n]); }
          } else { if (recent >= LIMIT && p && (!before || b)) { limited++; full = true; } if (d.contains(el)) fail(`after ${what}: the element of injection ${n} is in the page, although ${recent >= LIMIT ? `it was inserted ${recent} times within a second` : `there is no ${parent}${before ? ` with ${before}` : ''}`}`); }
        }
      }
      const got = log.filter((e) => e[0] !== 'run' && e[0] !== 'rm' && !(nested(inst.get(e[1]).s) && e[0] !== 'found'));
      const order = (l) => l.map((e) => JSON.stringify(e)).sort();
      same(order(got), order(want), `what the injections saw after ${what}`);
      same(w.__domMutator ? w.__domMutator.paused : 0, 0, `pauses of the mutation observer left after ${what}`);
    };
    const snap = async () => { for (const [n, i] of inst) i.was = d.contains(w.__els[n]); await settle(2); };
    const out = (n) => { const l = [...inst.keys()]; const k = l[n % Math.max(1, l.length)]; const el = w.__els[k]; if (el && d.contains(el)) { el.remove(); return true; } return false; };
    const one = (o) => {
      const el = o.id && d.getElementById(o.id);
      if (o.op === 'put') { let b = d.getElementById(o.into); if (!b) { b = Object.assign(d.createElement('div'), { id: o.into, className: 'box' }); d.body.appendChild(b); } const e = el || Object.assign(d.createElement('p'), { id: o.id }); e.className = o.cls; b.insertBefore(e, o.first ? b.firstChild : null); }
      else if (o.op === 'drop') { if (el) el.remove(); } else if (o.op === 'class') { if (el) el.className = o.cls; } else if (o.op === 'mark') { if (el) { if (o.on) el.setAttribute('data-on', ''); else el.removeAttribute('data-on'); } }
      else if (o.op === 'box') { if (o.on && !el) { const e = d.createElement('div'); e.id = o.id; e.className = o.cls; d.body.appendChild(e); } else if (!o.on && el) el.remove(); }
      else if (o.op === 'empty') { if (el) el.innerHTML = ''; } else if (o.op === 'theme') d.documentElement.className = o.on ? 'theme' : ''; else if (o.op === 'body') { const b = d.createElement('body'); b.append(...d.body.childNodes); d.body.replaceWith(b); } else if (o.op === 'out') out(o.n);
    };
    page.start({ flags, pages }); await v.clock.advance(5); await settle(3); observe('the start');
    for (const o of c.ops) {
      if (o.op === 'batch') { o.list.forEach(one); if (full) d.body.setAttribute('data-tick', show(o)); await snap(); observe(show(o.list)); }
      else if (o.op === 'busy') { for (let i = 0; i < o.count; i++) { d.body.setAttribute('data-tick', String(i)); await snap(); observe(`change ${i} of a busy page`); if (o.gap) await v.clock.advance(o.gap); } }
      else if (o.op === 'fight') { for (let i = 0; i < o.count; i++) { if (o.pause && i === (o.count >> 1)) await v.clock.advance(o.pause); if (!out(o.n)) { if (!full || !o.pause) break; d.body.setAttribute('data-tick', `f${i}`); } await snap(); observe(`removal ${i} of the inserted element`); if (o.gap) await v.clock.advance(o.gap); } }
      else if (o.op === 'wait') { await v.clock.advance(o.ms); }
      else { if (full) d.body.setAttribute('data-tick', `go ${v.clock.now}`); for (const [n, i] of inst) i.was = d.contains(w.__els[n]); w.history.pushState({}, '', o.to); await v.clock.advance(5); await settle(3); observe(`navigation to ${o.to}`); }
    }
    ctx.cls('found later', late > 0); ctx.cls('inserted', inserted > 0); ctx.cls('inserted again', again > 0); ctx.cls('limited', limited > 0); ctx.cls('reverted', [...inst.values()].some((i) => !i.live)); ctx.nontrivial(late > 0 || again > 0);
  } finally { v.close(); await settle(1); }
}
export default {
  id: 'T24', level: 'exploration',
  rule: 'a case is non-trivial when an element was found later than at the start, or an element was inserted again after it was removed',
  assumptions: ['selectors are valid', 'an insertBeforeSelector naming no child of the parent has no specified effect, except that it breaks nothing else', 'callbacks of the injected code do not throw'],
  async setup() { return { script: await bundleScript('tag') }; },
  parts: [{ name: 'dom', what: 'changes of the page in batches, removals of inserted elements, bursts, waits and navigations', runs: { quick: 1300, thorough: 30000 }, expect: { 'found later': 0.2, inserted: 0.25, 'inserted again': 0.12, limited: 0.02, reverted: 0.1 },
    arb: (fc) => fc.record({ at: fc.constantFrom('/a', '/a', '/a', '/z'), boxes: fc.uniqueArray(fc.tuple(fc.constantFrom(...BOXES), fc.constantFrom('box', 'box open', ''), fc.subarray(ITEMS)), { maxLength: 2, selector: (x) => x[0] }), specs: fc.array(specArb(fc), { minLength: 1, maxLength: 2 }), ops: fc.array(opArb(fc), { minLength: 2, maxLength: 10, size: 'max' }) }), check }],
};
