import { bundleScript } from '../lib/build.mjs';
import { Visitor, settle, webFlag, pageObject, mutate, redirect } from '../lib/tagworld.mjs';
import { decodeJson } from '../lib/world.mjs';
import { evaluate, order } from '../lib/refeval.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const ORIGIN = 'https://www.example.com';
const SNIPPET = '<!doctype html><html><head><style id="amp-exp-css">*{visibility:hidden}</style></head><body></body></html>';
// ---- generated flags ---------------------------------------------------------------------------
const flagArb = (fc) => fc.record({ remote: fc.constantFrom(false, false, true), blocking: fc.boolean(), deps: fc.array(fc.nat(9), { minLength: 1, maxLength: 2 }), on: fc.constantFrom('all', 'dep', 'dep', 'user', 'device'), base: fc.nat(3), where: fc.constantFrom('all', 'all', 'all', 'b') });
const KEYS = ['f1', 'f2', 'f3', 'f4'];
const specs = (c) => { const list = c.flags.map((f, i) => ({ ...f, key: KEYS[i] })); if (c.group !== 'none') list.splice(c.groupAt % (list.length + 1), 0, { key: c.group === 'holdout' ? 'holdout-1' : 'mutex-1', remote: c.groupRemote, blocking: false, deps: [], on: c.groupOn, base: c.groupBase, where: 'all', silent: true }); return list.map((f, i) => ({ ...f, deps: [...new Set(f.deps.map((d) => d % (i || 1)).filter((d) => d < i))].map((d) => list[d].key) })); };
const OUT = ['x', 'y', 'x', 'off'];
/** Version n of the configurations; the last ones of the list come first, as nothing promises an order. */
const configs = (c, n, asServed) => specs(c).map((f) => {
  const name = OUT[(f.base + n) % 4], other = name === 'x' ? 'y' : 'x'; const dep = f.deps[0];
  const cond = f.on === 'user' ? [{ op: 'is', selector: ['context', 'user', 'user_id'], values: ['member'] }] : f.on === 'device' ? [{ op: 'is', selector: ['context', 'user', 'device_id'], values: ['d'] }] : f.on === 'dep' && dep ? [{ op: 'is', selector: ['result', dep, 'key'], values: ['x'] }] : null;
  const segments = [...(cond ? [{ metadata: { segmentName: 'Some' }, conditions: [cond], variant: name }] : []), { metadata: { segmentName: 'All Other Users' }, variant: cond ? other : name }];
  const payload = (v) => (f.silent ? undefined : [mutate([[`${f.key}-${v}`]])]);
  return webFlag(f.key, { x: payload('x'), y: payload('y') }, undefined, { remote: f.remote && !asServed, blocking: f.blocking, segments, ...(f.deps.length ? { dependencies: f.deps } : {}) });
}).sort((a, b) => (c.reversed ? (a.key < b.key ? 1 : -1) : 0));
const pagesOf = (c) => Object.fromEntries(specs(c).map((f) => [f.key, { p: pageObject('p', { re: f.where === 'b' ? '/b' : '.*' }) }]));
const visitArb = (fc) => fc.record({ outcome: fc.constantFrom('ok', 'ok', 'ok', 'status', 'error', 'hang'), latency: fc.constantFrom(0, 40, 300, 900), version: fc.nat(3), initial: fc.nat(3), setup: fc.constantFrom('none', 0, 50, 50, 300, 800, 1600), reject: fc.boolean(), user: fc.constantFrom('member', 'guest', null), device: fc.boolean(), configs: fc.constantFrom(0, 30, 1200), leave: fc.boolean() });
async function check(c, ctx, { script }) {
  const v = new Visitor({ script }); const list = specs(c); const keys = list.map((f) => f.key); let stored = {}; let cached = false, promoted = false, waited = false;
  // a flag is remote when the server decides about it, or about something it depends on
  const direct = list.filter((f) => f.remote).map((f) => f.key); const remote = new Set(direct); for (const f of list) if (f.deps.some((d) => remote.has(d))) remote.add(f.key);
  const previewed = c.preview ? Object.fromEntries(Object.entries(c.preview).filter(([k]) => keys.includes(k))) : {}; const preview = Object.keys(previewed).length > 0;
  try {
    for (let n = 0; n < c.visits.length; n++) {
      const s = c.visits[n]; const t0 = v.clock.now;
      const server = (r) => (/configs/.test(r.url) ? { status: 200, delay: s.configs, body: { flags: configs(c, s.initial), pageObjects: pagesOf(c), behavioralTargetingRules: {} } } : s.outcome === 'hang' ? 'hang' : s.outcome === 'error' ? { kind: 'error', delay: s.latency } : s.outcome === 'status' ? { status: 503, delay: s.latency, body: 'busy' } : { status: 200, delay: s.latency, body: configs(c, s.version, true) });
      const page = v.open(`${ORIGIN}/a${preview && n === 0 ? `?PREVIEW=true&${Object.entries(previewed).map(([k, x]) => `${k}=${x}`).join('&')}` : ''}`, { server, html: SNIPPET });
      const identity = {}; const known = { ...(s.user ? { user_id: s.user } : {}), ...(s.device ? { device_id: 'd' } : {}) };
      page.integration.getUser = () => identity; const ready = s.setup === 'none' ? 0 : s.setup;
      if (s.setup === 'none') { delete page.integration.setup; Object.assign(identity, known); }
      else page.integration.setup = () => new Promise((ok, no) => { v.clock.at(v.clock.now + s.setup, () => { Object.assign(identity, known); if (s.reject) no(new Error('not today')); else ok(); }); });
      page.start({ flags: configs(c, s.initial), pages: pagesOf(c) });
      // ---- what is to happen, and when ----
      const early = s.setup === 'none' ? known : {}; const initial = Object.fromEntries(configs(c, s.initial).map((f) => [f.key, f])); let memory = { ...initial, ...stored };
      const results = (user) => evaluate({ user }, order(memory, keys)); const shown = (user, url) => { const r = results(user); return (k) => (k in previewed ? previewed[k] : r[k] && r[k].key); };
      const start = preview ? s.configs : 0; const hasGroup = c.group !== 'none';
      const localKeys = keys.filter((k) => (!remote.has(k) || (direct.includes(k) && k in stored)));
      const allPreviewed = [...remote].every((k) => k in previewed); const blocking = !allPreviewed && list.some((f) => remote.has(f.key) && f.blocking && f.where === 'all');
      const first = hasGroup ? start + ready : start; const ask = Math.max(first, start + ready); const answer = allPreviewed ? null : s.outcome === 'hang' ? ask + 1000 : ask + s.latency;
      const end = allPreviewed ? first : answer;
      const applied = {}; let did = { first: false, end: false };
      const apply = (which, user, url) => { const of = shown(user); for (const f of list) { if (f.silent || !which(f.key)) continue; const x = of(f.key); const active = f.where === 'all' || url === '/b'; if (active) applied[f.key] = x === 'off' || !x ? undefined : x; else delete applied[f.key]; } };
      const overlay = (t) => { const spans = []; if (preview) spans.push([0, Math.min(1000, blocking ? end : first)]); if (blocking) { const again = !preview || start >= 1000; if (again) spans.push([start, Math.min(start + 1000, end)]); } return spans.some(([a, b]) => t >= a && t < b); };
      // the page's own overlay goes with the first removal
      const snippetEnd = Math.min(blocking ? end : first, preview ? 1000 : Infinity, blocking && !(preview && start < 1000) ? start + 1000 : Infinity);
      const times = [...new Set([0, start, first, ask, end, 1000, start + 1000].flatMap((t) => [t - 1, t + 1]))].filter((t) => t >= 0).sort((a, b) => a - b);
      const at = (t) => {
        if (!did.first && t >= first) { did.first = true; apply((k) => localKeys.includes(k) || k in previewed, hasGroup ? known : early, '/a'); }
        if (!did.end && t >= end) { did.end = true; if (!allPreviewed) { if (s.outcome === 'ok') { stored = Object.fromEntries(configs(c, s.version, true).map((f) => [f.key, f])); memory = { ...initial, ...stored }; } apply((k) => remote.has(k) && !(k in previewed), known, '/a'); } }
        const where = `${t} ms into visit ${n}`;
        same(page.mutations().map((m) => m.value).sort(), Object.entries(applied).filter(([, x]) => x).map(([k, x]) => `${k}-${x}`).sort(), `mutations applied ${where}`);
        same(page.overlay(), overlay(t), `overlay ${where}`); same(page.document.getElementById('amp-exp-css') !== null, t < snippetEnd, `overlay of the page's snippet ${where}`);
      };
      // a moment at which two things fall together is not looked at
      const clash = new Set([0, start, first, ask, end, 1000, start + 1000]);
      for (const t of times) { if ([...clash].some((x) => x === t)) continue; await v.clock.advance(t0 + t - v.clock.now); at(t); }
      const last = times[times.length - 1]; if (!did.end) { await v.clock.advance(Math.max(0, t0 + end + 1 - v.clock.now)); at(end + 1); }
      const asked = page.requests.filter((r) => /flags/.test(r.url) && !/configs/.test(r.url));
      same(asked.map((r) => r.at - t0), allPreviewed ? [] : [ask], `requests for configurations on visit ${n}`);
      if (asked.length) { const h = asked[0].headers['X-Amp-Exp-User']; same(h === undefined ? {} : decodeJson(h), known, `identity sent with the request on visit ${n}`); if (!/delivery_method=web/.test(asked[0].url)) fail(`the request does not ask for web experiments: ${asked[0].url}`); }
      if (s.leave) { page.window.history.pushState({}, '', '/b'); await v.clock.advance(5); apply(() => true, known, '/b'); same(page.mutations().map((m) => m.value).sort(), Object.entries(applied).filter(([, x]) => x).map(([k, x]) => `${k}-${x}`).sort(), `mutations on the next page of visit ${n}`); }
      if (page.errors.length) fail(`page error: ${page.errors[0].stack || page.errors[0]}`);
      cached ||= n > 0 && !allPreviewed && direct.some((k) => localKeys.includes(k)); promoted ||= list.some((f) => !f.remote && remote.has(f.key)); waited ||= hasGroup && ready > 0;
      ctx.cls('blocking', blocking); ctx.cls('all previewed', preview && allPreviewed && remote.size > 0); ctx.cls('some previewed', preview && !allPreviewed); ctx.cls('failed', !allPreviewed && s.outcome !== 'ok');
      page.close(); await v.clock.advance(2000);
    }
    ctx.cls('cached', cached); ctx.cls('promoted', promoted); ctx.cls('promoted through another flag', list.some((f) => !f.remote && remote.has(f.key) && !f.deps.some((d) => direct.includes(d)))); ctx.cls('waited', waited);
    ctx.nontrivial(remote.size > 0 && remote.size < keys.length + (cached || promoted ? 1 : 0) && list.length > 1);
  } finally { v.close(); await settle(1); }
}
// ---- redirects handled by the application ------------------------------------------------------
async function checkSoft(c, ctx, { script }) {
  const v = new Visitor({ script }); const any = (re = '.*') => ({ p: pageObject('p', { re }) });
  try {
    const go = webFlag('go', { x: [redirect(`${ORIGIN}/b`)] }, 'x', { remote: c.remote, blocking: c.blocking });
    const flags = [webFlag('l', { x: [mutate([['l']])] }, 'x'), webFlag('r', { x: [mutate([['r']])] }, 'x', { remote: true, blocking: c.other }), webFlag('there', { x: [mutate([['there']])] }, 'x')]; flags.splice(c.at % 4, 0, go);
    const served = flags.map((f) => ({ ...f, metadata: { ...f.metadata, evaluationMode: 'local' } }));
    const page = v.open(`${ORIGIN}/a`, { html: SNIPPET, server: () => ({ status: 200, delay: c.latency, body: served }) }); const t0 = v.clock.now;
    page.start({ flags, pages: { go: any('/a$'), l: any(), r: any(), there: any('/b$') } }); let called = null;
    page.client.setRedirectHandler((url) => { called = v.clock.now - t0; if (url !== `${ORIGIN}/b`) fail(`handler called with ${url}`); const move = () => { page.window.history[c.replace ? 'replaceState' : 'pushState']({}, '', url); }; if (c.delay === 0) move(); else v.clock.at(v.clock.now + c.delay, move); });
    const redirectAt = c.remote ? c.latency : 0; const landed = redirectAt + c.delay; const blocking = (c.remote && c.blocking) || c.other;
    // the overlay is kept while the application is on its way, and is gone with the landing, but never stays for longer than a second
    for (const t of [...new Set([0, redirectAt, landed, 1000, c.latency].flatMap((x) => [x - 1, x + 1]))].filter((x) => x >= 0).sort((a, b) => a - b)) {
      if ([0, redirectAt, landed, 1000, c.latency].includes(t)) continue;
      await v.clock.advance(t0 + t - v.clock.now); same(page.url, `${ORIGIN}/${t >= landed ? 'b' : 'a'}`, `page at ${t} ms`);
      same(page.overlay(), blocking && t < Math.min(landed, 1000), `overlay at ${t} ms`);
      same(page.document.getElementById('amp-exp-css') !== null, t < Math.min(c.remote && !blocking ? 0 : landed, blocking ? 1000 : Infinity), `overlay of the page's snippet at ${t} ms`);
    }
    await v.clock.advance(3000); same(called, redirectAt, 'redirect handler called at'); same(page.navigations, [], 'navigations by the tag');
    const on = page.mutations().map((m) => m.value).sort(); if (!on.includes('there') || !on.includes('l')) fail(`not applied after the landing: ${show(on)}`);
    same(page.overlay(), false, 'overlay in the end');
    ctx.cls('on its way', c.delay > 0 && blocking); ctx.nontrivial(blocking || c.delay > 0);
  } finally { v.close(); await settle(1); }
}
export default {
  id: 'T25', level: 'exploration',
  rule: 'a case is non-trivial when the page has flags decided by the server and flags decided locally, or local flags which depend on the server ones',
  assumptions: ['the dependencies of a flag, its delivery method and its blocking mark do not change between configurations', 'every flag has a last segment for all other users', 'the integration becomes ready sooner or later', 'events which fall on the same millisecond are not ordered'],
  async setup() { return { script: await bundleScript('tag') }; },
  parts: [{
    name: 'startup', what: 'flags with dependencies over several visits of a tab: served configurations, failed requests, late identities, holdouts, preview', runs: { quick: 700, thorough: 20000 }, expect: { cached: 0.15, promoted: 0.25, 'promoted through another flag': 0.03, waited: 0.2, blocking: 0.2, 'some previewed': 0.05, 'all previewed': 0.02, failed: 0.2 },
    arb: (fc) => fc.record({ flags: fc.array(flagArb(fc), { minLength: 2, maxLength: 4 }), group: fc.constantFrom('none', 'holdout', 'mutex'), groupAt: fc.nat(4), groupRemote: fc.constantFrom(false, false, true), groupOn: fc.constantFrom('user', 'device', 'all'), groupBase: fc.nat(3), reversed: fc.boolean(), preview: fc.oneof({ weight: 3, arbitrary: fc.constant(null) }, { weight: 1, arbitrary: fc.dictionary(fc.constantFrom(...KEYS), fc.constantFrom('x', 'y'), { minKeys: 1, maxKeys: 4, size: 'max' }) }), visits: fc.array(visitArb(fc), { minLength: 1, maxLength: 3 }) }), check,
  }, {
    name: 'soft redirects', what: 'redirects the application carries out later, with overlays up', runs: { quick: 300, thorough: 6000 }, expect: { 'on its way': 0.3 },
    arb: (fc) => fc.record({ remote: fc.boolean(), blocking: fc.boolean(), other: fc.boolean(), at: fc.nat(3), latency: fc.constantFrom(20, 300, 900), delay: fc.constantFrom(0, 50, 400, 1500), replace: fc.boolean() }), check: checkSoft,
  }],
};
