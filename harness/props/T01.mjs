import { bundleScript } from '../lib/build.mjs';
import { Visitor, Clock, settle, webFlag, pageObject, mutate, inject, SLICE } from '../lib/tagworld.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const HOST = 'www.example.com', ORIGIN = `https://${HOST}`;
const STATUS = ['granted', 'denied', 'pending', 'bogus', undefined];
const optionsArb = (fc) => fc.option(fc.record({ consentRequired: fc.constantFrom(true, true, true, true, false), consentStatus: fc.constantFrom('pending', 'pending', 'denied', 'granted', 'GRANTED', null, true) }, { requiredKeys: [] }), { nil: undefined, freq: 8 });
const stepArb = (fc) => fc.oneof(
  { weight: 5, arbitrary: fc.record({ op: fc.constant('init'), consent: optionsArb(fc), args: fc.nat(1) }) },
  { weight: 5, arbitrary: fc.record({ op: fc.constant('set'), status: fc.constantFrom('granted', 'denied', 'denied', 'pending', 'bogus', 'Granted', undefined, null, 1), via: fc.constantFrom('window', 'module') }) },
  { weight: 4, arbitrary: fc.record({ op: fc.constant('event'), via: fc.constantFrom('window', 'module') }) },
  { weight: 2, arbitrary: fc.record({ op: fc.constant('navigate'), to: fc.constantFrom('/b', '/c?utm_source=s', '/a') }) },
  { weight: 2, arbitrary: fc.record({ op: fc.constant('wait'), ms: fc.constantFrom(0, 20, 700, 5000) }) },
  { weight: 1, arbitrary: fc.record({ op: fc.constant('dom'), what: fc.constantFrom('click', 'pagehide', 'visibilitychange') }) });
const deviceArb = (fc) => fc.array(fc.constantFrom('identity', 'cookie', 'events', 'flags', 'provider', 'campaign', 'unsent', 'preview', 'redirect', 'page'), { maxLength: 4 });
const DEVICE = {
  identity: (v) => v.local(ORIGIN).m.set(`EXP_${SLICE}`, '{"web_exp_id":"w-old","web_exp_id_v2":"v-old"}'),
  cookie: (v) => v.jar.set(HOST, `EXP_${SLICE}_identity=${Buffer.from(encodeURIComponent(JSON.stringify('{"web_exp_id_v2":"v-shared","first_seen":"1600000000"}'))).toString('base64')}; path=/; domain=.example.com; max-age=9999999`),
  events: (v) => v.local(ORIGIN).m.set(`EXP_${SLICE}_rtbt_events`, JSON.stringify({ events: [{ uuid: 'u-old', id: 0, event_type: 'view', timestamp: v.clock.now - 1000, session_id: 's', properties: {} }], nextId: 1 })),
  flags: (v) => v.session(ORIGIN).m.set('amp-exp-$default_instance-web-ghijkl-flags', '{}'), provider: (v) => v.local(ORIGIN).m.set(`EXP_${SLICE}_DEFAULT_USER_PROVIDER`, '{"first_seen":"1500000000"}'),
  campaign: (v) => v.local(ORIGIN).m.set(`EXP_MKTG_${SLICE}`, '{"utm_source":"old"}'), unsent: (v) => v.local(ORIGIN).m.set('EXP_unsent_$default_instance', '[{"eventType":"$exposure","eventProperties":{"flag_key":"q"}}]'),
  preview: (v) => v.session(ORIGIN).m.set('amp-preview-mode', '{"previewFlags":{"on":"b"}}'), redirect: (v) => v.session(ORIGIN).m.set(`EXP_${SLICE}_REDIRECT`, JSON.stringify({ on: { redirectUrl: `${ORIGIN}/a`, variantKey: 'b' } })), page: (v) => { v.local(ORIGIN).m.set('theme', 'dark'); v.jar.set(HOST, 'session=1; path=/'); },
};
const OWN = /^(EXP_|amp-exp|AMP_MKTG_ORIGINAL)/;
const argSets = () => {
  const any = { p: pageObject('p', { re: '.*' }) };
  const f = (x, y) => ({ flags: [webFlag('on', { [x]: [mutate([['m-' + x]])], [y]: [mutate([['m-' + y]])] }, x), webFlag('inj', { a: [inject('i' + x, { css: `.c${x}{}`, js: `window.__ran=(window.__ran||0)+1;` })] }, 'a'), webFlag('rem', { a: [mutate([['r']])] }, 'a', { remote: true, blocking: true }), webFlag('beh', { a: [mutate([['beh']])] }, 'a', { segments: [{ conditions: [[{ op: 'set contains any', selector: ['context', 'user', 'behavioral_targeting'], values: ['["b1"]'] }]], variant: 'a' }, { variant: 'off' }] })], pages: { on: any, inj: any, rem: any, beh: any } });
  return [f('a', 'b'), f('b', 'a')];
};
const RULES = { beh: { b1: [[{ condition: { type: 'behavior', event_type: 'view', op: 'greater or equal', value: 1, time_type: 'rolling', time_value: 5, interval: 'day' } }]] } };
const server = (mode) => (r) => (mode === 'hang' ? 'hang' : mode === 'fail' ? { status: 500, delay: 5, body: 'x' } : { status: 200, delay: 5, body: /configs/.test(r.url) ? { flags: argSets()[0].flags, pageObjects: argSets()[0].pages } : [] });
const pluginOf = (p, via) => (via === 'window' && p.window.webExperiment && p.window.webExperiment.plugin ? p.window.webExperiment.plugin() : p.M.index.createPlugin());
const copyStore = (from, to) => { for (const [k, x] of from.m) to.m.set(k, x); };
const state = (v) => ({ local: v.local(ORIGIN).dump(), session: v.session(ORIGIN).dump(), cookies: v.jar.dump() });
async function body(c, ctx, { script }) {
  const v = new Visitor({ script }); let twin = null; const { clock, jar } = v;
  try {
    for (const d of c.device) DEVICE[d](v);
    const page = v.open(ORIGIN + c.path, { server: server(c.server) });
    if (c.page !== undefined) page.window.experimentConfig = { consentOptions: c.page }; const html0 = page.document.documentElement.outerHTML;
    const local = page.local, session = page.session; const reads = []; for (const s of [local, session]) { s.log = []; s.failGet = (k) => { reads.push(k); return false; }; } const cookieWrites = () => jar.writes.length; let cookies0 = cookieWrites();
    page.run(); const M = page.M; const pageState = () => state(v);
    // model
    let status = 'pending', explicit = false, deferred = null, launched = null, buffered = [], swept = false, n = 0, withheld = 0, denied = 0; let snap = null, delivered = [], later = [];
    const merged = (o) => ({ ...o, ...c.page }); const known = (x) => x === 'granted' || x === 'denied' || x === 'pending';
    const quiet = (what) => {
      if (page.requests.length) fail(`request ${page.requests[0].url} ${what}`); if (page.tracked.length) fail(`impression ${what}: ${show(page.impressions())}`); if (page.mutations().length) fail(`variant applied ${what}`);
      same(page.document.documentElement.outerHTML, html0, `document ${what}`); if (page.overlay()) fail(`the page is hidden ${what}`); if (page.client) fail(`a client exists ${what}`); if (page.observers.length) fail(`elements are observed ${what}`); if (page.navigations.length) fail(`navigation ${what}`);
      const log = [...local.log, ...session.log]; local.log.length = session.log.length = 0; const w = cookieWrites() - cookies0;
      if (status !== 'denied') { same(log, [], `storage writes ${what}`); same(w, 0, `cookie writes ${what}`); const mine = reads.filter((k) => OWN.test(k)); same(mine, [], `stored data read ${what}`); }
      else { const bad = log.filter((x) => x[0] === 'set'); same(bad, [], `storage writes ${what}`); const kept = jar.writes.slice(cookies0).filter((x) => !x.gone && !/_erased$/.test(x.name)); same(kept, [], `cookie writes ${what}`); }
      cookies0 = cookieWrites(); reads.length = 0; withheld++;
    };
    const grab = () => { const m = { jar: jar.list.map((x) => ({ ...x })), local: new Map(local.m), session: new Map(session.m), uid: v.uid, now: clock.now, url: page.url, seq: jar.seq }; return m; };
    const launch = (args) => { launched = args; };
    for (const s of c.steps) {
      const what = `after ${show(s)}, status ${status}`;
      if (!launched) snap = grab();
      if (s.op === 'init') {
        const before = launched;
        if (!launched) {
          const o = merged(s.consent); const gated = o.consentRequired || deferred !== null;
          if (gated) { if (!explicit && known(o.consentStatus) && o.consentStatus !== 'pending') status = o.consentStatus; if (status !== 'granted') { deferred = s.args; buffered = []; } else { deferred = null; launch(s.args); } } else launch(s.args);
        }
        M.index.initialize('client-abcdefghijkl', { initialFlags: JSON.stringify(argSets()[s.args].flags), pageObjects: JSON.stringify(argSets()[s.args].pages), behavioralTargetingRules: JSON.stringify(RULES) }, { useDefaultNavigationHandler: true, ...(s.consent !== undefined ? { consentOptions: s.consent } : {}) });
        if (before === null && launched !== null) { delivered = buffered; buffered = null; }
      } else if (s.op === 'set') {
        const fn = s.via === 'window' && page.window.webExperiment && page.window.webExperiment.setConsentStatus ? page.window.webExperiment.setConsentStatus : M.index.setConsentStatus;
        if (known(s.status) && !(launched !== null && s.status === 'denied')) { explicit = true; if (s.status !== 'pending') status = s.status; if (status === 'granted' && deferred !== null && launched === null) { launch(deferred); deferred = null; delivered = []; buffered = null; } fn(s.status); }
        else if (!known(s.status)) fn(s.status);
      } else if (s.op === 'event') {
        const name = 'view'; const id = n++; const ev = { event_type: name, event_properties: { n: id } }; const plugin = pluginOf(page, s.via);
        if (launched !== null) later.push({ ...s, id }); else if (deferred === null) buffered.push(id);
        await plugin.execute(ev);
      } else if (s.op === 'navigate') { page.window.history.pushState({}, '', s.to); if (launched !== null) later.push(s); }
      else if (s.op === 'wait') { if (launched !== null) later.push(s); if (launched === null) await clock.advance(s.ms); }
      else { const E = page.window.Event; if (s.what === 'click') page.document.body.dispatchEvent(new E('click', { bubbles: true })); else if (s.what === 'pagehide') page.window.dispatchEvent(new E('pagehide')); else page.document.dispatchEvent(new E('visibilitychange')); if (launched !== null) later.push(s); }
      if (launched !== null && !twin) {
        // the page as it would be without any consent gate, started now
        const clock2 = new Clock(clock.now); clock2.t0 = clock.t0; twin = new Visitor({ script, clock: clock2 }); twin.uid = snap.uid; twin.jar.list = snap.jar; twin.jar.seq = snap.seq; for (const [k, x] of snap.local) twin.local(ORIGIN).m.set(k, x); for (const [k, x] of snap.session) twin.session(ORIGIN).m.set(k, x);
        if (status === 'granted' && !explicit && swept) void 0;
        local.failGet = session.failGet = null; local.log = session.log = null;
        const p2 = twin.page = twin.open(snap.url, { server: server(c.server) }); p2.run();
        for (const id of delivered) await p2.M.index.createPlugin().execute({ event_type: 'view', event_properties: { n: id } });
        p2.M.index.initialize('client-abcdefghijkl', { initialFlags: JSON.stringify(argSets()[launched].flags), pageObjects: JSON.stringify(argSets()[launched].pages), behavioralTargetingRules: JSON.stringify(RULES) }, { useDefaultNavigationHandler: true });
        if (launched !== null && s.op !== 'init' && s.op !== 'set') fail('started by nothing');
      } else if (launched !== null) {
        const p2 = twin.page; const x = s;
        if (x.op === 'event') await pluginOf(p2, x.via).execute({ event_type: 'view', event_properties: { n: n - 1 } }); else if (x.op === 'navigate') p2.window.history.pushState({}, '', x.to); else if (x.op === 'wait') { await clock.advance(x.ms); await twin.clock.advance(x.ms); }
        else if (x.op === 'dom') { const E = p2.window.Event; if (x.what === 'click') p2.document.body.dispatchEvent(new E('click', { bubbles: true })); else if (x.what === 'pagehide') p2.window.dispatchEvent(new E('pagehide')); else p2.document.dispatchEvent(new E('visibilitychange')); }
      }
      await settle(2);
      if (launched === null) { quiet(what); if (status === 'denied' && deferred !== null) denied++; }
    }
    if (launched !== null) {
      await clock.advance(3000); await twin.clock.advance(3000); await settle(2);
      const p2 = twin.page; const what = 'of the page released by the grant, compared with a page without consent gate';
      const obs = (p, vv) => ({ state: state(vv), mutations: p.mutations().map((m) => m.selector).sort(), impressions: p.tracked.map((t) => t.event), requests: p.requests.map((r) => [r.url, r.at]), pages: p.activePages(), running: p.client && p.client.isRunning, overlay: p.overlay(), ran: p.window.__ran, url: p.url });
      const a = obs(page, v), b = obs(p2, twin); for (const k of Object.keys(b)) same(a[k], b[k], `${k} ${what}`);
    }
    ctx.cls('withheld', withheld > 2 && (deferred !== null || launched !== null)); ctx.cls('released', launched !== null && withheld > 1); ctx.cls('denied', denied > 0); ctx.nontrivial(withheld > 0 && (launched !== null || denied > 0 || withheld > 3));
  } finally { v.close(); if (twin) twin.close(); await settle(1); }
}
export default {
  id: 'T01', level: 'exploration',
  rule: 'a case is non-trivial when consent was withheld for several operations, or until a grant or denial',
  assumptions: ['consent options of the page and of the argument are booleans and status words, or other values which count as undecided', 'a refusal removes stored data and leaves only the erasure marker (T03)'],
  async setup() { return { script: await bundleScript('tag') }; },
  parts: [{ name: 'gates', what: 'initializations, status updates, events, navigations and page signals in any order, on devices with data of earlier visits; after the release, a page without consent gate is the reference', runs: { quick: 600, thorough: 20000 }, expect: { withheld: 0.4, released: 0.2, denied: 0.2 },
    arb: (fc) => fc.record({ device: deviceArb(fc), path: fc.constantFrom('/a', '/a?utm_source=n', '/b#x', '/a?PREVIEW=true&on=b'), page: optionsArb(fc), server: fc.constantFrom('ok', 'ok', 'fail', 'hang'), steps: fc.array(stepArb(fc), { minLength: 3, maxLength: 12, size: 'max' }) }), check: body }],
};
