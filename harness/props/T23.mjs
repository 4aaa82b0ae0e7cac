import { bundleScript } from '../lib/build.mjs';
import { Visitor, settle, webFlag, pageObject, mutate, inject, redirect, SLICE, API_KEY } from '../lib/tagworld.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const ORIGIN = 'https://www.example.com', CAP = 500;
const TYPES = ['view', 'buy', 'other'];
const opArb = (fc) => fc.oneof(
  { weight: 6, arbitrary: fc.record({ op: fc.constant('event'), type: fc.constantFrom(...TYPES), plugin: fc.constantFrom('module', 'module', 'window', 'old'), bare: fc.boolean() }) },
  { weight: 1, arbitrary: fc.record({ op: fc.constant('burst'), count: fc.oneof({ weight: 3, arbitrary: fc.integer({ min: 2, max: 9 }) }, { weight: 1, arbitrary: fc.integer({ min: 480, max: 520 }) }) }) },
  { weight: 3, arbitrary: fc.record({ op: fc.constant('init'), args: fc.nat(1), copy: fc.boolean() }) },
  { weight: 3, arbitrary: fc.record({ op: fc.constant('wait'), ms: fc.constantFrom(0, 1, 4, 6, 40, 400, 3000) }) },
  { weight: 1, arbitrary: fc.record({ op: fc.constant('navigate'), to: fc.constantFrom('/a', '/b', '/c?x=1') }) });
const RULES = { beh: { b1: [[{ condition: { type: 'behavior', event_type: 'view', op: 'greater or equal', value: 2, time_type: 'rolling', time_value: 5, interval: 'day' } }]] }, beh2: { b2: [[{ condition: { type: 'behavior', event_type: 'buy', op: 'greater or equal', value: 1, time_type: 'rolling', time_value: 5, interval: 'day' } }]] } };
const argsOf = (n, c) => {
  const x = n ? 'second' : 'first';
  const behFlag = (key, b) => webFlag(key, { a: [mutate([[`${key}-${x}`]])] }, 'a', { segments: [{ conditions: [[{ op: 'set contains any', selector: ['context', 'user', 'behavioral_targeting'], values: [b] }]], variant: 'a' }] });
  const flags = [webFlag('on', { a: [mutate([[`on-${x}`]])] }, 'a'), webFlag('inj', { a: [inject(`i-${x}`, { css: `.${x}{}`, js: `window.__ran = (window.__ran || []).concat('${x}')` })] }, 'a'), behFlag('beh', 'b1'), behFlag('beh2', 'b2'), webFlag('ev', { a: [mutate([[`ev-${x}`]])] }, 'a')];
  if (c.remote !== 'none') flags.push(webFlag('rem', { a: [mutate([[`rem-${x}`]])] }, 'a', { remote: true, blocking: c.blocking }));
  const any = { p: pageObject('p', { re: '.*' }) };
  const pages = { on: any, inj: any, beh: any, beh2: any, rem: any, ev: Object.fromEntries(TYPES.map((t) => [t, pageObject(t, { re: '.*', type: 'analytics_event', value: [[{ op: 'is', selector: ['context', 'data', 'event'], values: [t] }]] })])) };
  return { flags, pages };
};
const server = (c) => (r) => { const d = c.latency; if (/configs/.test(r.url)) { const a = argsOf(0, c); return { status: 200, delay: d, body: { flags: a.flags, pageObjects: a.pages, behavioralTargetingRules: RULES } }; } return c.remote === 'fail' ? { status: 500, delay: d, body: 'x' } : { status: 200, delay: d, body: /vardata/.test(r.url) ? { rem: { key: 'a', value: 'a' } } : [] }; };
async function play(c, script, copies, onDelivery) {
  const v = new Visitor({ script }); const out = [];
  try {
    const page = v.open(`${ORIGIN}${c.preview ? '/a?PREVIEW=true&on=a' : '/a'}`, { server: server(c) }); page.run(); const M = page.M; let started = false; let n = 0; let old = null;
    const init = (index, k) => { const a = argsOf(k, c); index.initialize(API_KEY, { initialFlags: JSON.stringify(a.flags), pageObjects: JSON.stringify(a.pages), ...(c.rules ? { behavioralTargetingRules: JSON.stringify(RULES) } : {}) }, { useDefaultNavigationHandler: true }); };
    const send = async (type, plugin, bare) => {
      const id = n++; const running = Boolean(page.client && page.client.isRunning);
      // the plugin of a client which is still starting forwards at once; what that does is not this property's matter
      let p = M.index.createPlugin(); if (plugin === 'window' && page.window.webExperiment && (page.window.webExperiment.isStub || running)) p = page.window.webExperiment.plugin(); if (plugin === 'old' && old) p = old; if (plugin !== 'module' && !old) old = p;
      const event = { event_type: type, ...(bare ? {} : { event_properties: { n: id, deep: { list: [id] } } }), user_id: 'u' }; const text = JSON.stringify(event);
      if (p.setup) await p.setup({}); const result = await p.execute(event);
      if (result !== event) fail('the plugin passes on a different event'); same(JSON.stringify(result), text, 'event passed on by the plugin');
      if (onDelivery) onDelivery({ type, n: bare ? undefined : id, running });
    };
    const step = async (s) => {
      if (s.op === 'init') {
        if (!started) { started = true; init(M.index, 0); }
        else if (copies) { if (s.copy) { page.M = null; page.run(); init(page.M.index, s.args); page.M = M; page.window.__M = M; } else init(M.index, s.args); }
        else if (s.copy) { page.M = null; page.run(); page.M = M; page.window.__M = M; } // the script is there, but does nothing
      } else if (s.op === 'wait') await v.clock.advance(s.ms);
      else if (s.op === 'navigate') page.window.history.pushState({}, '', s.to);
      else if (s.op === 'event') await send(s.type, s.plugin, s.bare);
      else for (let i = 0; i < s.count; i++) await send(TYPES[i % 2], 'module', false);
      await settle(2);
    };
    const state = (what) => out.push({ what, running: Boolean(page.client && page.client.isRunning), mutations: page.mutations().map((m) => m.value).sort(), ran: page.window.__ran, impressions: page.impressions().map((i) => `${i.flag} ${i.variant} ${i.at} ${i.url}`), requests: page.requests.map((r) => `${r.url} ${r.at}`), pages: page.activePages(), hidden: page.overlay(), sheets: page.document.adoptedStyleSheets.map((x) => x.text), behaviors: ((page.client && page.client.getExperimentClient().getUser()) || {}).behavioral_targeting, errors: page.errors.map(String) });
    for (const s of c.ops) { await step(s); state(show(s)); }
    if (!started) await step({ op: 'init', args: 0 });
    await v.clock.advance(12000); state('in the end');
    page.window.dispatchEvent(new page.window.Event('beforeunload')); page.window.dispatchEvent(new page.window.Event('pagehide')); await settle(2);
    let stored = []; try { stored = JSON.parse(v.local(ORIGIN).m.get(`EXP_${SLICE}_rtbt_events`)).events; } catch { /* none */ }
    return { out, stored: stored.map((e) => [e.event_type, e.properties.n]) };
  } finally { v.close(); await settle(1); }
}
async function check(c, ctx, { script }) {
  const buffered = [], direct = []; let overflow = 0;
  const copies = await play(c, script, true, (e) => { if (e.running) direct.push(e); else { buffered.push(e); if (buffered.length > CAP) { buffered.shift(); overflow++; } } });
  if (c.rules) same(copies.stored, [...buffered, ...direct].filter((e) => e.type !== 'other').slice(-CAP).map((e) => [e.type, e.n]), 'events which reached the client');
  const end = copies.out[copies.out.length - 1];
  if (!end.running) fail('the client never runs');
  const again = c.ops.filter((s) => s.op === 'init').length;
  if (again > 1) { const once = await play(c, script, false); for (let i = 0; i < once.out.length; i++) for (const k of Object.keys(once.out[i])) same(copies.out[i][k], once.out[i][k], `${k} after ${once.out[i].what}, compared with a page initialized once`); same(copies.stored, once.stored, 'stored events, compared with a page initialized once'); }
  if (!c.ops.some((s) => s.op === 'navigate')) same(end.pages.ev || [], [...new Set([...buffered, ...direct].map((e) => e.type))].sort(), 'pages of the events');
  ctx.cls('buffered', buffered.length > 0); ctx.cls('overflow', overflow > 0); ctx.cls('direct', direct.length > 0); ctx.cls('again', again > 1); ctx.cls('copy', c.ops.filter((s) => s.op === 'init').slice(1).some((s) => s.copy));
  ctx.nontrivial(buffered.length > 0 || again > 1);
}
export default {
  id: 'T23', level: 'exploration',
  rule: 'a case is non-trivial when events arrived before the client ran, or the page was initialized more than once',
  assumptions: ['events of a plugin taken from a client which is still starting are not generated', 'consent withheld is covered by T01', 'no second copy of the script in preview mode'],
  async setup() { return { script: await bundleScript('tag') }; },
  parts: [{ name: 'starts', what: 'events through the plugin, initializations (other arguments, second copies of the script), waits and navigations in any order', runs: { quick: 500, thorough: 15000 }, expect: { buffered: 0.4, overflow: 0.005, direct: 0.2, again: 0.3, copy: 0.07 },
    arb: (fc) => fc.record({ remote: fc.constantFrom('none', 'ok', 'ok', 'fail'), blocking: fc.boolean(), latency: fc.constantFrom(0, 5, 300, 900), rules: fc.boolean(), preview: fc.constantFrom(false, false, false, true), ops: fc.array(opArb(fc), { minLength: 2, maxLength: 10 }) }).map((c) => (c.preview ? { ...c, ops: c.ops.map((o) => (o.op === 'init' ? { ...o, copy: false } : o)) } : c)), check }],
};
