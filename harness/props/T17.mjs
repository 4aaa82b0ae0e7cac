import { scopedBundle, bundleScript } from '../lib/build.mjs';
import { Visitor, settle, webFlag, pageObject, mutate, redirect, SLICE, API_KEY } from '../lib/tagworld.mjs';
import { tagPage } from '../lib/taglight.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const fn = (n) => Object.assign(() => n, { id: n });
const F1 = fn(1), F2 = fn(2);
const consent = (fc) => fc.option(fc.record({ consentRequired: fc.boolean(), consentStatus: fc.constantFrom('granted', 'pending', 'denied', 'bogus') }, { requiredKeys: [] }), { nil: undefined });
const cfg = (fc) => fc.record({
  serverZone: fc.constantFrom('US', 'EU'), instanceName: fc.constantFrom('$default_instance', 'two'), debug: fc.boolean(), useDefaultNavigationHandler: fc.boolean(), applyExperimentsOnPageLoad: fc.boolean(), redirectConfig: fc.record({ baseUrl: fc.constantFrom('a', 'b'), urlParam: fc.constant('x') }, { requiredKeys: [] }),
  customRedirectHandler: fc.constantFrom(F1, F2), useAmpExpDomain: fc.boolean(), relayUrl: fc.constantFrom('http://localhost'), unknownField: fc.constantFrom(0, '', null, false), consentOptions: consent(fc), source: fc.constantFrom('snippet', 'wix'), initialVariants: fc.dictionary(fc.constantFrom('f', 'g'), fc.constant({ key: 'on', value: 'on' })),
}, { requiredKeys: [] }).map((o) => { if (o.consentOptions === undefined) delete o.consentOptions; return o; });
const snap = (o) => (o === undefined ? undefined : Object.fromEntries(Object.entries(o).map(([k, v]) => [k, typeof v === 'function' ? v : JSON.parse(JSON.stringify(v))])));
const ORIGIN = 'https://www.example.com';
const visitCfg = (fc) => fc.record({
  serverZone: fc.constantFrom('US', 'EU'), instanceName: fc.constantFrom('$default_instance', 'two'), useDefaultNavigationHandler: fc.boolean(), redirectConfig: fc.record({ encodeRedirectInUrl: fc.boolean(), encodeRedirectInCookie: fc.boolean() }, { requiredKeys: [] }),
  rtbtSessionTimeout: fc.constantFrom(60000, 600000), relayUrl: fc.constantFrom('https://relay.one', 'https://relay.two/'), consentOptions: fc.constantFrom({ consentRequired: true, consentStatus: 'granted' }, { consentStatus: 'granted' }, { consentRequired: true }, {}), automaticExposureTracking: fc.boolean(),
}, { requiredKeys: [] });
/** One scripted visit under a configuration: everything it does outside. */
async function visit(script, c, arg, pageLevel) {
  const v = new Visitor({ script }); const { clock } = v;
  try {
    const p = v.open(`${ORIGIN}/a${c.preview ? '?PREVIEW=true' : ''}`, { server: (r) => ({ status: 200, delay: 5, body: /configs/.test(r.url) ? { flags: FLAGS, pageViewObjects: PAGES, behavioralTargetingRules: RULES } : [] }) });
    if (pageLevel !== undefined) p.window.experimentConfig = pageLevel;
    p.run(); p.M.index.initialize(API_KEY, { initialFlags: JSON.stringify(FLAGS), pageObjects: JSON.stringify(PAGES), behavioralTargetingRules: JSON.stringify(RULES) }, arg);
    await settle(2); await clock.advance(200); const frames = [...p.document.querySelectorAll('iframe')].map((f) => f.src);
    const session = () => { const x = v.jar.get('www.example.com', `EXP_${SLICE}_rtbt_session`); return x; };
    const fire = async () => { await p.M.index.createPlugin().execute({ event_type: 'view', event_properties: {} }); await settle(1); return session(); };
    const s1 = await fire(); await clock.advance(c.gap); const s2 = await fire(); await clock.advance(100);
    if (!p.navigations.length) { p.window.history.pushState({}, '', '/b?k=1'); await clock.advance(1500); }
    return { started: Boolean(p.client), requests: p.requests.map((r) => [r.url, r.at]), local: p.local.dump(), session: p.session.dump(), cookies: v.jar.dump(), mutations: p.mutations().map((m) => m.selector).sort(), tracked: p.tracked.map((t) => [t.at, t.event]), navigations: p.navigations.map((n) => [n.url, n.at]), frames, sessions: [s1, s2] };
  } finally { v.close(); await settle(1); }
}
const FLAGS = [webFlag('rem', { t: [mutate([['rem']])] }, 't', { remote: true, blocking: true }), webFlag('loc', { t: [mutate([['loc']])] }, 't'), webFlag('red', { t: [redirect('https://shop.example.com/c')] }, 't'), webFlag('beh', { t: [mutate([['beh']])] }, 't', { segments: [{ conditions: [[{ op: 'set contains any', selector: ['context', 'user', 'behavioral_targeting'], values: ['["b1"]'] }]], variant: 't' }, { variant: 'off' }] })];
const PAGES = { rem: { p: pageObject('p', { re: '.*' }) }, loc: { p: pageObject('p', { re: '.*' }) }, red: { b: pageObject('b', { re: '/b' }) }, beh: { p: pageObject('p', { re: '.*' }) } };
const RULES = { beh: { b1: [[{ condition: { type: 'behavior', event_type: 'view', op: 'greater or equal', value: 1, time_type: 'rolling', time_value: 5, interval: 'day' } }]] } };
export default {
  id: 'T17', level: 'exploration',
  rule: 'a case is non-trivial when page-level configuration and argument both set some field differently, or consent options come from both',
  assumptions: ['fields given as undefined are not generated'],
  async setup() { return { bundle: await scopedBundle('tag'), script: await bundleScript('tag') }; },
  parts: [{
    name: 'pairs', what: 'argument and page-level configurations, merged field by field', sync: true, runs: { quick: 6000, thorough: 200000 }, expect: { both: 0.3 },
    arb: (fc) => fc.record({ arg: cfg(fc), page: fc.option(cfg(fc), { nil: undefined, freq: 6 }) }),
    check(c, ctx, env) {
      const page = env.page || (env.page = tagPage({ bundle: env.bundle })); const { config } = page.M;
      const a0 = snap(c.arg), p0 = snap(c.page);
      const defaults = snap(config.mergeWithWindowConfig({}, { experimentConfig: undefined })); const d2 = config.mergeWithWindowConfig({}, {}); same(snap(d2), defaults, 'defaults');
      const got = config.mergeWithWindowConfig(c.arg, { experimentConfig: c.page }); const pg = c.page || {};
      const want = {};
      for (const k of new Set([...Object.keys(defaults), ...Object.keys(c.arg), ...Object.keys(pg)])) if (k !== 'consentOptions') want[k] = k in pg ? pg[k] : k in c.arg ? c.arg[k] : defaults[k];
      const co = {}; for (const k of ['consentRequired', 'consentStatus']) { const src = [pg.consentOptions, c.arg.consentOptions].find((x) => x && k in x); if (src) co[k] = src[k]; }
      want.consentOptions = co;
      same(got, want, 'effective configuration'); same(snap(c.arg), a0, 'argument left as given'); same(snap(c.page), p0, 'page-level configuration left as given');
      // the result is the caller's own: changing its consent options changes neither input
      got.consentOptions.consentRequired = 'changed'; same(snap(c.arg), a0, 'argument after the result changed'); same(snap(c.page), p0, 'page-level configuration after the result changed'); same(snap(config.mergeWithWindowConfig({}, {})), defaults, 'defaults after a merge');
      const both = Object.keys(c.arg).some((k) => k in pg && show(pg[k]) !== show(c.arg[k])); ctx.nontrivial(both); ctx.cls('both', both);
    },
  }, {
    name: 'effect', what: 'the whole initialization acts on the merged consent requirement', sync: true, runs: { quick: 1500, thorough: 30000 }, expect: { gated: 0.2 },
    arb: (fc) => fc.record({ arg: consent(fc), page: consent(fc) }),
    check(c, ctx, { bundle }) {
      const calls = []; const clean = (o) => (o ? { consentOptions: o } : {});
      const page = tagPage({ bundle, globals: { experimentConfig: c.page ? clean(c.page) : undefined, fetch: (u) => { calls.push(String(u)); return new Promise(() => {}); } } });
      page.M.index.initialize('client-dep', { initialFlags: '[]', pageObjects: '{}', behavioralTargetingRules: '{}' }, clean(c.arg));
      const pick = (k) => [c.page, c.arg].find((x) => x && k in x)?.[k];
      const required = pick('consentRequired') === true, status = pick('consentStatus'); const gated = required && status !== 'granted';
      const g = page.M.gate.getConsentDebugState(); same([g.required, g.started], [required, !gated], 'gate (required, started)');
      if (gated) { same(calls, [], 'requests while gated'); same(page.local.dump(), {}, 'local storage while gated'); same(page.jar.dump().filter((x) => status !== 'denied' || !x.startsWith('EXP_client-dep_erased@')), [], 'cookies while gated'); }
      ctx.nontrivial(gated); ctx.cls('gated', gated);
    },
  }, {
    name: 'visit', what: 'a whole visit acts on the merged configuration: the same as one given the merged configuration as argument', runs: { quick: 150, thorough: 4000 }, expect: { both: 0.3 },
    arb: (fc) => fc.record({ arg: visitCfg(fc), page: fc.option(visitCfg(fc), { nil: undefined, freq: 8 }), preview: fc.constantFrom(false, false, true), gap: fc.constantFrom(30000, 300000, 1200000, 2000000) }),
    async check(c, ctx, { script }) {
      const pg = c.page || {}; const copy = (x) => JSON.parse(JSON.stringify(x)); const merged = { ...c.arg, ...pg, consentOptions: { ...c.arg.consentOptions, ...pg.consentOptions } };
      const a = await visit(script, c, copy(c.arg), c.page && copy(c.page)), b = await visit(script, c, copy(merged), undefined);
      const both = Object.keys(c.arg).some((k) => k in pg && show(pg[k]) !== show(c.arg[k])); ctx.nontrivial(both); ctx.cls('both', both); ctx.cls('preview', c.preview);
      for (const k of Object.keys(b)) same(a[k], b[k], `${k} of the visit, compared with one given the merged configuration as argument`);
      // and what it does is what the merged configuration says
      const co = merged.consentOptions, gated = co.consentRequired === true && co.consentStatus !== 'granted'; same(b.started, !gated, 'the client started'); ctx.cls('gated', gated); if (gated) { same([b.requests, b.mutations, b.frames, b.local, b.session, b.cookies], [[], [], [], {}, {}, []], 'what a gated visit does'); return; } const eu = merged.serverZone === 'EU'; if (b.requests.length < (c.preview ? 2 : 1)) fail(`requests of the visit: ${show(b.requests)}`);
      for (const [u] of b.requests) same(/\.eu\./.test(u), eu, `server zone of the request ${u} with ${show(merged)}`);
      for (const u of b.frames) same(new URL(u).origin, merged.relayUrl ? new URL(merged.relayUrl).origin : `https://cdn${eu ? '.eu' : ''}.amplitude.com`, 'address of the relay');
      const id = (x) => JSON.parse(decodeURIComponent(x)).sessionId; same(id(b.sessions[0]) !== id(b.sessions[1]), c.gap > (merged.rtbtSessionTimeout || 1800000), `a new session after ${c.gap} ms with ${show(merged)}`);
      const go = merged.useDefaultNavigationHandler !== false, rc = merged.redirectConfig || { encodeRedirectInCookie: true }; same(b.navigations.length, go ? 1 : 0, 'redirects after the navigation');
      if (go) { same(new URL(b.navigations[0][0]).searchParams.has('AMP_REDIRECT'), Boolean(rc.encodeRedirectInUrl), 'redirect encoded in the URL'); same(b.cookies.some((x) => x.startsWith(`EXP_${SLICE}_REDIRECT@`)), Boolean(rc.encodeRedirectInCookie), `redirect encoded in a cookie (${b.cookies})`); }
      const inst = merged.instanceName || '$default_instance'; for (const k of [...Object.keys(b.session), ...Object.keys(b.local)].filter((x) => x.startsWith('amp-exp-'))) same(k.startsWith(`amp-exp-${inst}-web-`), true, `instance of the entry ${k}`);
      ctx.cls('relay', b.frames.length > 0);
    },
  }],
};
