import { bundleScript } from '../lib/build.mjs';
import { Visitor, settle, webFlag, pageObject, mutate } from '../lib/tagworld.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const ORIGIN = 'https://www.example.com';
// ---- links -----------------------------------------------------------------------------------------
const HREFS = ['/b', '/c', '/b?x=1', '?q=2', '#part', 'c/d', 'https://www.example.com/c', '//www.example.com/b', 'https://shop.example.com/b', 'http://www.example.com/b', '//other.test/p', 'https://other.test/', 'mailto:a@b.test', '', null];
const ORIGINAL = '/original';
const linkArb = (fc) => fc.record({ href: fc.constantFrom('/b', '/c', ...HREFS), changed: fc.constantFrom(...Array(9).fill('href'), 'ended', 'class', 'none'), fiber: fc.constantFrom(...Array(10).fill('link'), 'other', 'none', 'nohandler'), target: fc.constantFrom(...Array(8).fill(null), '_self', '_self', '', '_blank', '_top', 'frame1'), inner: fc.nat(2) });
const clickArb = (fc) => fc.record({ op: fc.constant('click'), link: fc.nat(3), on: fc.constantFrom('link', 'link', 'inner', 'inner', 'beside'), mod: fc.constantFrom(...Array(12).fill(null), 'metaKey', 'ctrlKey', 'shiftKey', 'altKey'), button: fc.constantFrom(0, 0, 0, 0, 0, 0, 0, 0, 1, 2) });
const opArb = (fc) => fc.oneof({ weight: 8, arbitrary: clickArb(fc) }, { weight: 1, arbitrary: fc.record({ op: fc.constant('change'), link: fc.nat(3), href: fc.constantFrom(...HREFS), changed: fc.constantFrom('href', 'ended') }) }, { weight: 1, arbitrary: fc.constant({ op: 'back' }) });
async function links(c, ctx, { script }) {
  const v = new Visitor({ script }); let followed = 0, left = 0, untouched = 0;
  try {
    const page = v.open(`${ORIGIN}/a`); const w = page.window, d = page.document; const routed = [], pops = [], own = []; let seen = null;
    if (c.router === 'next') w.next = { router: { push: (h) => { routed.push(h); w.history.pushState({ next: true }, '', h); } } }; else if (c.router === 'bare') w.next = { router: {} };
    w.addEventListener('popstate', (e) => pops.push(e.state === null ? 'null' : 'state'));
    page.start({ flags: ['b', 'c'].map((k) => webFlag(k, { on: [mutate([[k]])] }, 'on')), pages: { b: { pb: pageObject('pb', { re: '/b' }) }, c: { pc: pageObject('pc', { re: '/c' }) } } });
    await v.clock.advance(200); for (let i = 1; i < c.copies; i++) { page.M = null; page.run(); page.start({ flags: [], pages: {} }); await v.clock.advance(100); }
    const els = c.links.map((l, i) => {
      const a = d.createElement('a'); a.id = 'l' + i; let e = a; for (let k = 0; k < l.inner; k++) { const x = d.createElement('span'); e.appendChild(x); e = x; } e.appendChild(d.createTextNode('go'));
      // what a framework link does: route to the address it was given, unless somebody prevented it
      const onClick = (ev) => { if (ev.defaultPrevented) return; own.push(i); ev.preventDefault(); }; const other = () => { own.push(i); };
      if (l.fiber !== 'none') a['__reactFiber$x1'] = { memoizedProps: l.fiber === 'nohandler' ? {} : { onClick: l.fiber === 'link' ? onClick : other } };
      a.addEventListener('click', (ev) => { seen = ev.defaultPrevented; if (l.fiber === 'link') onClick(ev); else if (l.fiber === 'other') other(ev); }); d.body.appendChild(a); return a;
    });
    const set = (i, href, changed) => { const a = els[i]; if (href === null) a.removeAttribute('href'); else a.setAttribute('href', changed === 'href' ? href : href); if (changed === 'none') delete a.__mutationRecord__; else a.__mutationRecord__ = { element: a, attributes: changed === 'class' ? { class: { mutations: [{}] } } : { href: { originalValue: ORIGINAL, mutations: changed === 'ended' ? [] : [{}] } } }; };
    c.links.forEach((l, i) => { set(i, l.href, l.changed); if (l.target !== null) els[i].setAttribute('target', l.target); }); const beside = d.createElement('p'); d.body.appendChild(beside);
    d.addEventListener('click', (ev) => ev.preventDefault()); // the browser's own navigation is not simulated
    const stack = [page.url]; let at = 0; const state = c.links.map((l) => ({ href: l.href, changed: l.changed }));
    for (const o of c.ops) {
      const i = (o.link ?? 0) % c.links.length; const l = c.links[i], st = state[i];
      if (o.op === 'change') { st.href = o.href; st.changed = o.changed; set(i, o.href, o.changed); continue; }
      if (o.op === 'back') { w.history.back(); await v.clock.advance(150); await settle(); if (at > 0) at--; if (page.url !== stack[at]) fail(`going back led to ${page.url} instead of ${stack[at]}`); continue; }
      routed.length = pops.length = own.length = 0; seen = null; const navs = page.navigations.length; const url = page.url;
      let target = o.on === 'beside' ? beside : els[i]; if (o.on === 'inner') while (target.firstElementChild) target = target.firstElementChild;
      target.dispatchEvent(new w.MouseEvent('click', { bubbles: true, cancelable: true, button: o.button, ...(o.mod ? { [o.mod]: true } : {}) }));
      const went = page.navigations.slice(navs).map((n) => n.url); const say = `a click (${show(o)}) on the link ${show({ ...l, ...st })} at ${url}`;
      const mine = o.on !== 'beside' && st.changed === 'href' && st.href && !o.mod && o.button === 0 && (!l.target || l.target === '_self') && l.fiber === 'link';
      if (!mine) {
        untouched++; if (seen) fail(`${say} was prevented`); if (went.length || routed.length || pops.length || page.url !== url) fail(`${say} navigated: ${show({ went, routed, pops, url: page.url })}`);
        if (o.on !== 'beside' && (l.fiber === 'link' || l.fiber === 'other') !== own.length > 0) fail(`${say}: handler of the link ran ${own.length} times`);
      } else {
        const to = new URL(st.href, url); if (seen !== true) fail(`${say} was left to the framework, which goes to the address before the change`); if (own.length) fail(`${say} was followed by the framework as well`);
        if (to.origin !== ORIGIN) { left++; same(went, [to.href], `pages loaded after ${say}`); if (routed.length || pops.length || page.url !== url) fail(`${say} was routed as well: ${show({ routed, pops, url: page.url })}`); }
        else {
          followed++; if (went.length) fail(`${say} loaded ${show(went)}`); if (page.url !== to.href) fail(`${say} went to ${page.url} instead of ${to.href}`);
          if (c.router === 'next') { same(routed.map((h) => new URL(h, url).href), [to.href], `what the router got after ${say}`); if (pops.length) fail(`${say}: popstate besides the router`); } else { same(pops, ['null'], `popstate events after ${say}`); if (w.history.state !== null) fail(`${say}: state ${show(w.history.state)}`); }
          stack.length = at + 1; stack.push(to.href); at++; if (w.history.length !== stack.length) fail(`${say}: the history has ${w.history.length} entries instead of ${stack.length}`);
        }
      }
      await v.clock.advance(150); const want = ['b', 'c'].filter((k) => page.url.includes('/' + k));
      same(page.mutations().map((m) => m.value).sort(), want, `changes in effect at ${page.url} after ${say}`);
    }
    ctx.nontrivial(followed > 0 && untouched > 0); ctx.cls('followed', followed > 0); ctx.cls('left the site', left > 0); ctx.cls('untouched', untouched > 0);
  } finally { v.close(); await settle(1); }
}
// ---- removals --------------------------------------------------------------------------------------
async function removals(c, ctx, { script }) {
  const v = new Visitor({ script }); let gone = 0, there = 0;
  try {
    const page = v.open(`${ORIGIN}/a`); const w = page.window, d = page.document; const before = d.createElement('div'); d.body.appendChild(before);
    page.start({ flags: [webFlag('f', { on: [mutate([['f']])] }, 'on')], pages: { f: { p: pageObject('p', { re: '.*' }) } } }); await v.clock.advance(200);
    const nodes = [before]; const parentOf = [null]; // model: index of the parent, -1 for none
    for (let k = 0; k < 3; k++) { nodes.push(d.createElement('div')); parentOf.push(-1); } const make = { div: () => d.createElement('div'), text: () => d.createTextNode('t'), comment: () => d.createComment('c'), span: () => d.createElement('span') };
    const index = (n) => nodes.indexOf(n);
    for (const o of c) {
      if (o.op === 'make') { if (nodes.length > 9) continue; const n = make[o.kind](); nodes.push(n); parentOf.push(-1); continue; }
      const b = o.b % nodes.length, a = o.op === 'detach' && parentOf[b] > 0 ? parentOf[b] : o.a % nodes.length; const P = nodes[a], N = nodes[b];
      if (P.nodeType !== 1) continue;
      if (o.op === 'append') { if (a === b || N.contains(P) || b === 0) continue; P.appendChild(N); parentOf[b] = a; continue; }
      const child = parentOf[b] === a; const html = d.body.innerHTML; let got; try { got = P.removeChild(N); } catch (e) { fail(`removing a node which ${child ? 'is' : 'is not'} a child threw ${e.name}`); }
      if (got !== N) fail('removeChild did not return the node'); if (child) { there++; if (N.parentNode) fail('the node is still there'); parentOf[b] = -1; } else { gone++; if (d.body.innerHTML !== html) fail('removing a node which is not a child changed the page'); if ((N.parentNode ? index(N.parentNode) : -1) !== (parentOf[b] === null ? -1 : parentOf[b]) && b !== 0) fail('removing a node which is not a child moved it'); }
    }
    ctx.nontrivial(gone > 0 && there > 0); ctx.cls('gone', gone > 0); ctx.cls('there', there > 0);
  } finally { v.close(); await settle(1); }
}
export default {
  id: 'T28', level: 'exploration',
  rule: 'links: a changed link was followed and another click left alone; removals: a child and a node which is not a child were removed',
  assumptions: ['the record of changed attributes is that of dom-mutator, which is not installed here: the check sets it', 'a framework link is recognized as React renders it'],
  async setup() { return { script: await bundleScript('tag') }; },
  parts: [
    { name: 'links', what: 'clicks on changed and unchanged links with and without a router, modifiers, targets, several script copies', runs: { quick: 500, thorough: 15000 }, expect: { followed: 0.2, 'left the site': 0.15, untouched: 0.6 },
      arb: (fc) => fc.record({ links: fc.array(linkArb(fc), { minLength: 1, maxLength: 3 }), router: fc.constantFrom('next', 'bare', 'none', 'none'), copies: fc.constantFrom(1, 1, 2), ops: fc.array(opArb(fc), { minLength: 3, maxLength: 10, size: 'max' }) }), check: links },
    { name: 'removals', what: 'a framework removes nodes which may have been moved or removed before', runs: { quick: 150, thorough: 4000 }, expect: { gone: 0.6, there: 0.4 },
      arb: (fc) => fc.array(fc.oneof({ weight: 2, arbitrary: fc.record({ op: fc.constant('make'), kind: fc.constantFrom('div', 'div', 'span', 'text', 'comment') }) }, { weight: 4, arbitrary: fc.record({ op: fc.constantFrom('append', 'append', 'append', 'remove', 'detach'), a: fc.nat(9), b: fc.nat(9) }) }), { minLength: 12, maxLength: 50, size: 'max' }), check: removals },
  ],
};
