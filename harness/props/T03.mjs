import { bundleScript } from '../lib/build.mjs';
import { Visitor, settle, webFlag, pageObject, mutate, redirect, SLICE, API_KEY } from '../lib/tagworld.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const HOSTS = ['www.example.com', 'app.example.com', 'example.com', 'a.b.example.com', 'shop.site.co.uk', 'www.shop.site.co.uk', 'localhost', 'other.org'];
const scopeOf = (h) => (h === 'localhost' ? null : h.endsWith('example.com') ? 'example.com' : h.endsWith('co.uk') ? 'site.co.uk' : 'other.org');
const CACHE = (inst) => `amp-exp-${inst}-web-${API_KEY.slice(-6)}`;
const RERUN = (inst) => [CACHE(inst), `${CACHE(inst)}-flags`, `${CACHE(inst)}-variants-options`, `EXP_unsent_${inst}`, `EXP_sent_v3_${inst}`, `EXP_${SLICE}_DEFAULT_USER_PROVIDER`];
const EXEMPT = ['amp-preview-mode', 'visual-editor-state'];
// entries of the page, of other products, of other deployments and of other instances
const FOREIGN = (inst) => ['theme', 'EXP', `EXP_${SLICE}x`, `EXP_${SLICE.slice(0, 9)}`, 'EXP_other-depl', 'EXP_other-depl_DEFAULT_USER_PROVIDER', `EXP_MKTG_other-depl`, `EXP_${SLICE}_rtbt_events2`, `xEXP_${SLICE}`, 'EXP_unsent_other', 'EXP_sent_v3_other', `amp-exp-${inst}-${API_KEY.slice(-6)}`, `amp-exp-other-web-${API_KEY.slice(-6)}`, `amp-exp-${inst}-web-zzzzzz-flags`, `AMP_MKTG_${SLICE}`, `AMP_${SLICE}`, `AMP_MKTG_ORIGINAL_other-depl`, 'EXP_other-depl_identity', 'EXP_other-depl_REDIRECT', `EXP_${SLICE}_identity2`, 'EXP_other-depl_erased', 'amp-exp-$default_instance-web', ...EXEMPT];
// what the SDK, or an earlier version of it, may have left
const OWN = (inst) => [['local', `EXP_${SLICE}`], ['local', `EXP_${SLICE}_DEFAULT_USER_PROVIDER`], ['local', `EXP_${SLICE}_rtbt_events`], ['local', `EXP_MKTG_${SLICE}`], ['local', `EXP_unsent_${inst}`], ['session', `EXP_${SLICE}_DEFAULT_USER_PROVIDER`], ['session', `EXP_${SLICE}_REDIRECT`], ['session', CACHE(inst)], ['session', `${CACHE(inst)}-flags`], ['session', `${CACHE(inst)}-variants-options`], ['session', `EXP_sent_v3_${inst}`], ['session', `EXP_sent_v2_${inst}`], ['session', `EXP_sent_${inst}`], ['cookie', `EXP_${SLICE}_identity`], ['cookie', `EXP_${SLICE}_rtbt_session`], ['cookie', `AMP_MKTG_ORIGINAL_${SLICE}`], ['cookie', `EXP_${SLICE}_REDIRECT`]];
const STALE = '[{"eventType":"$impression","eventProperties":{"stale":1}}]'; // an impression which an earlier visit could not send
const plantArb = (fc) => fc.record({ where: fc.constantFrom('local', 'session', 'cookie', 'domain'), key: fc.nat(24), v: fc.constantFrom('1', '{"a":1}', 'x%20y') });
const actArb = (fc) => fc.oneof({ weight: 4, arbitrary: fc.record({ a: fc.constant('event') }) }, { weight: 3, arbitrary: fc.record({ a: fc.constant('wait'), ms: fc.constantFrom(20, 600, 1500) }) }, { weight: 2, arbitrary: fc.record({ a: fc.constant('navigate'), to: fc.constantFrom('/b', '/c?utm_campaign=z', '/old') }) }, { weight: 1, arbitrary: fc.constant({ a: 'click' }) });
const visitArb = (fc) => fc.record({
  host: fc.nat(3), path: fc.constantFrom('/a', '/a?utm_source=mail', '/old', '/old?x=1'), gate: fc.constantFrom('none', 'granted', 'late'), accept: fc.boolean(), newTab: fc.constantFrom(false, false, true), remote: fc.constantFrom('ok', 'hang', 'fail'),
  before: fc.array(actArb(fc), { maxLength: 4 }), plants: fc.array(plantArb(fc), { maxLength: 3 }), left: fc.array(fc.record({ k: fc.oneof(fc.nat(16), fc.constant(4)), level: fc.nat(3) }), { maxLength: 2 }), deny: fc.constantFrom('no', 'no', 'config', 'early', 'pending', 'mid', 'mid', 'mid'), at: fc.constantFrom(0, 1, 2, 3, 5, 8, 'end', 'end', 'end'), after: fc.array(actArb(fc), { maxLength: 3 }), again: fc.boolean() });
const RULES = { on: { b1: [[{ condition: { type: 'behavior', event_type: 'view', op: 'greater or equal', value: 1, time_type: 'rolling', time_value: 5, interval: 'day' } }]] } };
async function body(c, ctx, { script }) {
  const v = new Visitor({ script }); const { jar, clock } = v; const inst = c.instance || '$default_instance'; const foreign = FOREIGN(inst);
  let erased = 0, carried = 0, later = 0; const stale = new Map(); // cookie scope or host -> identities which were erased
  const planted = { local: new Map(), session: new Map(), cookie: new Map() };
  const put = (h, o, p) => {
    const k = foreign[p.key % foreign.length]; if ((p.where === 'cookie' || p.where === 'domain') && EXEMPT.includes(k)) return;
    if (EXEMPT.includes(k)) { if (k === EXEMPT[1]) return; v.session(o).m.set(k, '{"previewFlags":{}}'); planted.session.set(`${o} ${k}`, '{"previewFlags":{}}'); return; }
    if (p.where === 'local') { v.local(o).m.set(k, p.v); planted.local.set(`${o} ${k}`, p.v); } else if (p.where === 'session') { v.session(o).m.set(k, p.v); planted.session.set(`${o} ${k}`, p.v); }
    else { const d = p.where === 'domain' ? scopeOf(h) : null; jar.set(h, `${k}=${encodeURIComponent(p.v)}; path=/; max-age=99999999${d ? `; domain=.${d}` : ''}`); planted.cookie.set(`${k}@${d ? '.' + d : h}`, encodeURIComponent(p.v)); }
  };
  const intact = (o, what) => {
    for (const [k, x] of planted.local) { const [org, ...n] = k.split(' '); if (org === o) same(v.local(o).m.get(n.join(' ')), x, `local entry ${n} of another owner ${what}`); }
    for (const [k, x] of planted.session) { const [org, ...n] = k.split(' '); if (org === o) same(v.session(o).m.get(n.join(' ')), x, `session entry ${n} of another owner ${what}`); }
    const dump = jar.dump(); for (const [k, x] of planted.cookie) if (!dump.includes(`${k}=${x}`)) fail(`cookie ${k} of another owner ${what}: ${show(dump)}`);
  };
  const own = (h, o, { rerun = false } = {}) => {
    const l = [...v.local(o).m.keys()].filter((k) => planted.local.get(`${o} ${k}`) === undefined); const s = [...v.session(o).m.keys()].filter((k) => planted.session.get(`${o} ${k}`) === undefined);
    const ck = jar.list.filter((k) => jar.visible(k, h)).map((k) => `${k.name}@${k.hostOnly ? '' : '.'}${k.domain}`).filter((k) => !planted.cookie.has(k) && k !== `EXP_${SLICE}_erased@.${scopeOf(h)}`);
    const cut = (list) => (rerun ? list.filter((k) => !RERUN(inst).includes(k)) : list); return { local: cut(l), session: cut(s), cookies: ck };
  };
  const NONE = { local: [], session: [], cookies: [] };
  const ids = (h, o) => { const out = []; for (const t of [v.local(o).m.get(`EXP_${SLICE}`)]) { try { const x = JSON.parse(t); out.push(x.web_exp_id, x.web_exp_id_v2); } catch { /* none */ } } try { const x = JSON.parse(v.local(o).m.get(`EXP_${SLICE}_rtbt_events`)); out.push(...x.events.map((e) => e.uuid)); } catch { /* none */ } return out.filter(Boolean); };
  const events = (o) => { try { return JSON.parse(v.local(o).m.get(`EXP_${SLICE}_rtbt_events`)).events.map((e) => e.uuid).filter(Boolean); } catch { return []; } };
  const hostOf = (i) => HOSTS[c.hosts[i % c.hosts.length]];
  try {
    for (const s of c.visits) {
      const h = hostOf(s.host), o = `https://${h}`, scope = scopeOf(h); if (s.newTab) { v.newTab(); planted.session.clear(); }
      for (const p of s.plants) put(h, o, p);
      for (const x of s.left) { const [t, k] = OWN(inst)[x.k % 17]; if (t === 'cookie') { const parts = h.split('.'); const levels = scope ? parts.map((_, i) => parts.slice(i).join('.')).filter((d) => d === scope || d.endsWith('.' + scope)) : []; const d = levels[x.level]; jar.set(h, `${k}=eyJ9; path=/; max-age=9999${d ? `; domain=.${d}` : ''}`); } else { const st = t === 'local' ? v.local(o) : v.session(o); if (!st.m.has(k)) st.m.set(k, /unsent/.test(k) ? STALE : '{}'); } }
      const marked = scope && jar.get(h, `EXP_${SLICE}_erased`) !== undefined; const identified = jar.get(h, `EXP_${SLICE}_identity`) !== undefined;
      const had = own(h, o); const before = ids(h, o), history = events(o);
      const page = v.open(o + s.path, { server: (r) => (/\/flags/.test(r.url) ? (s.remote === 'hang' ? 'hang' : s.remote === 'fail' ? { status: 500, body: 'x', delay: 3 } : { status: 200, delay: 3, body: [] }) : { status: 200, body: {} }) });
      page.acceptTrack = () => s.accept;
      const any = { p: pageObject('p', { re: '.*' }) };
      const flags = [webFlag('on', { a: [mutate([['x']])] }, 'a'), webFlag('rem', { a: [mutate([['y']])] }, 'a', { remote: true }), webFlag('red', { a: [redirect(`https://${hostOf(s.host + 1)}/new`)] }, 'a')];
      const pages = { on: any, rem: any, red: { q: pageObject('q', { re: '/old' }) } };
      const config = { ...(c.instance && c.where === 'arg' ? { instanceName: c.instance } : {}), redirectConfig: { encodeRedirectInCookie: c.cookie }, ...(s.gate === 'none' && !['config', 'early', 'pending', 'mid'].includes(s.deny) ? {} : { consentOptions: { consentRequired: true, ...(s.deny === 'config' ? { consentStatus: 'denied' } : s.gate === 'granted' || s.deny === 'mid' ? { consentStatus: s.deny === 'pending' || s.deny === 'early' ? 'pending' : 'granted' } : {}) } }) };
      if (c.instance && c.where === 'page') page.window.experimentConfig = { instanceName: c.instance };
      if (s.deny === 'early') { page.run(); page.M.index.setConsentStatus('denied'); }
      let denied = 0; const tracked0 = () => page.tracked.length;
      const act = async (x) => {
        if (page.closed) return;
        if (x.a === 'wait') await clock.advance(x.ms); else if (x.a === 'event') { if (page.M) await page.M.index.createPlugin().execute({ event_type: 'view', event_properties: { a: 1 } }); } else if (x.a === 'navigate') { page.window.history.pushState({}, '', x.to); await clock.advance(20); } else page.document.dispatchEvent(new page.window.Event('pointerdown', { bubbles: true }));
        await settle(1);
      };
      const stable = `at ${o}${s.path} (${s.deny})`;
      page.start({ flags, pages, rules: RULES, config });
      const set = (x) => page.window.webExperiment && (page.window.webExperiment.setConsentStatus ? page.window.webExperiment.setConsentStatus(x) : page.M.index.setConsentStatus(x));
      const cleared = (what) => { same(own(h, o), NONE, `own entries ${what} ${stable}`); intact(o, what); if (scope) same(jar.get(h, `EXP_${SLICE}_erased`), '1', `erasure marker ${what} ${stable}`); erased++; };
      const remember = (list) => { const k = scope || h; if (!stale.has(k)) stale.set(k, new Set()); for (const x of list) stale.get(k).add(x); };
      if (s.deny === 'config' || s.deny === 'early') { remember(before); cleared('after a denial known at load'); for (const a of s.before) await act(a); same(own(h, o), NONE, `own entries later on ${stable}`); intact(o, 'later on'); }
      else if (s.deny === 'pending') {
        for (const a of s.before) await act(a); same(own(h, o), had, `own entries while undecided ${stable}`); intact(o, 'while undecided');
        remember(before); set('denied'); cleared('after a refusal'); for (const a of s.after) await act(a); same(own(h, o), NONE, `own entries later on ${stable}`);
      } else {
        if (s.gate === 'late' && s.deny === 'no') { await clock.advance(100); set('granted'); }
        if (s.deny === 'mid' && s.at !== 'end') { await settle(s.at); } else { await clock.advance(50); for (const a of s.before) await act(a); if (marked && !identified) await clock.advance(600); }
        const running = page.client;
        if (running && s.deny === 'no' && !(marked && !identified)) { const now = events(o); for (const x of history) if (!now.includes(x)) fail(`the behaviour ${x} was lost although nothing was erased since ${stable}`); if (marked && history.length) ctx.cls('kept'); }
        if (running && s.deny === 'no') {
          const now = ids(h, o); const k = scope || h; const old = stale.get(k) || new Set(); const u = running.getExperimentClient().getUser();
          if (marked && !identified) { if (page.tracked.some((e) => /stale/.test(JSON.stringify(e))) || /stale/.test(String(v.local(o).m.get(`EXP_unsent_${inst}`)))) fail(`an impression queued before the erasure is kept ${stable}`); if (!s.before.some((a) => a.a === 'event')) same(u.behavioral_targeting || [], [], `behaviors right after the erasure ${stable}`); for (const x of [...now, u.web_exp_id, u.web_exp_id_v2]) if (old.has(x) || before.includes(x)) fail(`${x}, kept from before the erasure, is still in use ${stable}`); if (before.length) carried++; }
        }
        if (s.deny === 'mid') {
          remember(before); remember(ids(h, o)); const n = tracked0(); set('denied'); cleared('after a withdrawal'); denied = 1;
          for (const a of s.after) await act(a); same(own(h, o, { rerun: true }), NONE, `own entries later on ${stable}`); intact(o, 'later on'); same(page.tracked.length, n, 'impressions after a withdrawal'); later += s.after.length ? 1 : 0;
        } else intact(o, 'while running');
      }
      if (s.again && denied === 0 && s.deny !== 'no') { set('granted'); await clock.advance(50); if (page.client) { const u = page.client.getExperimentClient().getUser(); const old = stale.get(scope || h) || new Set(); for (const x of [u.web_exp_id, u.web_exp_id_v2, ...ids(h, o)]) if (old.has(x) && !(identified && false)) fail(`${x}, erased, is in use after opting in again ${stable}`); later++; } intact(o, 'after opting in again'); }
      if (page.M && !page.closed) { page.window.dispatchEvent(new page.window.Event('beforeunload')); page.window.dispatchEvent(new page.window.Event('pagehide')); await settle(1); if (denied || (s.deny !== 'no' && !s.again)) same(own(h, o, { rerun: denied === 1 }), NONE, `own entries after leaving ${stable}`); }
      page.close(); await settle(1); clock.timers.clear(); clock.now += 61000;
    }
    ctx.cls('erased', erased > 0); ctx.cls('carried', carried > 0); ctx.cls('continued', later > 0); ctx.nontrivial(erased > 0 && (planted.local.size + planted.cookie.size + planted.session.size > 0));
  } finally { v.close(); await settle(1); }
}
export default {
  id: 'T03', level: 'exploration',
  rule: 'a case is non-trivial when data of the deployment is erased while entries of other owners are present',
  assumptions: ['after a withdrawal a client which already runs may write its variant, flag, exposure and default user caches again until the page is left (documented)', 'an identity established after the erasure ends the erasure for the other hosts of the site (documented)', 'the exposure queue and dedupe entries are those of the instance name, shared by deployments (documented)'],
  async setup() { return { script: await bundleScript('tag') }; },
  parts: [{ name: 'visits', what: 'visits to several hosts with every kind of data, denials at load, while undecided and at any moment of a running client, opting in again, and entries of other owners', runs: { quick: 450, thorough: 20000 }, expect: { erased: 0.5, carried: 0.06, continued: 0.2, kept: 0.01 },
    arb: (fc) => fc.record({ hosts: fc.constantFrom([0], [0, 1], [0, 1], [1, 2, 3], [4, 5], [6], [0, 7]), instance: fc.constantFrom(undefined, undefined, 'mine'), where: fc.constantFrom('arg', 'page'), cookie: fc.boolean(), visits: fc.oneof(fc.array(visitArb(fc), { minLength: 2, maxLength: 5, size: 'max' }), fc.tuple(fc.array(visitArb(fc), { minLength: 3, maxLength: 3, size: 'max' }), fc.array(visitArb(fc), { maxLength: 2 })).map(([l, more]) => [{ ...l[0], host: 1, deny: 'no', newTab: false }, { ...l[1], host: 0, deny: l[1].deny === 'no' ? 'mid' : l[1].deny }, { ...l[2], host: 1, deny: 'no' }, ...more])) }), check: body }],
};
