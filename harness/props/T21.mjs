import { bundleScript } from '../lib/build.mjs';
import { Visitor, settle, webFlag, pageObject, mutate, inject, redirect, SLICE, API_KEY } from '../lib/tagworld.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const HOST = 'www.example.com', ORIGIN = `https://${HOST}`, CACHE = `amp-exp-$default_instance-web-${API_KEY.slice(-6)}`;
const FLAGS = ['on', 'rem', 'red', 'beh', 'inj'];
// the entries and what a well-formed one is: an object per flag, a list of flags, an object of known fields, or the cache of the browser SDK
const ENTRIES = [
  ['session', `EXP_${SLICE}_REDIRECT_MARKER`, 'flags'], ['session', `EXP_${SLICE}_REDIRECT`, 'flags'], ['session', `EXP_${SLICE}_REDIRECT_SUPPRESSED`, 'list'], ['session', 'amp-preview-mode', 'preview'], ['session', 'visual-editor-state', 'editor'],
  ['local', `EXP_${SLICE}_rtbt_events`, 'events'], ['local', `EXP_${SLICE}_rtbt_events`, 'events'], ['local', `EXP_MKTG_${SLICE}`, 'campaign'], ['local', `EXP_${SLICE}`, 'plain'], ['local', `EXP_${SLICE}_DEFAULT_USER_PROVIDER`, 'plain'], ['session', `EXP_${SLICE}_DEFAULT_USER_PROVIDER`, 'plain'], ['session', `EXP_${SLICE}_session`, 'plain'],
  ['local', CACHE, 'plain'], ['local', `${CACHE}-flags`, 'plain'], ['local', `${CACHE}-variants-options`, 'plain'], ['session', CACHE, 'plain'], ['session', `${CACHE}-flags`, 'plain'], ['session', `${CACHE}-variants-options`, 'plain'], ['local', 'EXP_unsent_$default_instance', 'queue'], ['session', 'EXP_sent_v3_$default_instance', 'plain'],
  ['cookie', `EXP_${SLICE}_identity`, 'identity'], ['cookie', `EXP_${SLICE}_rtbt_session`, 'session'], ['cookie', `EXP_${SLICE}_rtbt_session`, 'session'], ['cookie', `EXP_${SLICE}_REDIRECT`, 'flags'], ['cookie', `AMP_MKTG_${SLICE}`, 'plain'], ['cookie', `EXP_${SLICE}_session`, 'plain'], ['cookie', `EXP_${SLICE}_erased2`, 'plain'],
  ['url', 'AMP_REDIRECT', 'flags'], ['url', 'AMP_REDIRECT', 'flags'],
];
const BAD = ['{', 'undefined', '"abc"', '"on"', '5', '0', 'true', 'false', 'null', '[]', '[1,null]', '[null]', '[{}]', '{}', '[object Object]', 'NaN', '\u0000', '"', '{"a":'];
const member = (fc, texts) => fc.constantFrom(null, 5, 0, true, [], [1], ...(texts ? ['x', '', { variantKey: 5, redirectUrl: `${ORIGIN}/new` }, { variantKey: 'a' }, { variantKey: 'a', redirectUrl: 'not a url' }, { variantKey: 'a', redirectUrl: 5 }, { redirectUrl: `${ORIGIN}/new` }, { variantKey: ['a'], redirectUrl: `${ORIGIN}/new` }] : []), {});
const garbage = (fc, kind) => {
  const text = fc.oneof({ weight: 4, arbitrary: fc.constantFrom(...BAD) }, { weight: 1, arbitrary: fc.string({ maxLength: 12 }).filter((t) => { try { JSON.parse(t); return false; } catch { return true; } }) });
  const dict = (keys, texts) => fc.array(fc.tuple(fc.constantFrom(...keys), member(fc, texts)), { minLength: 1, maxLength: 3 }).map((l) => JSON.stringify(Object.fromEntries(l)));
  const mostly = (a, b) => fc.oneof({ weight: 1, arbitrary: a }, { weight: 3, arbitrary: b });
  if (kind === 'flags') return fc.oneof(text, dict([...FLAGS, 'gone', 'red', 'red'], true));
  if (kind === 'list') return fc.oneof(text, dict(['0', 'length', 'on'], true), fc.constantFrom('[5]', '[null]', '[["red"]]', '{"includes":1}'));
  if (kind === 'preview') return fc.oneof(text, fc.constantFrom(...['null', '5', '"on"', '[]', 'true', '{}', '[null]'].map((t) => `{"previewFlags":${t}}`)));
  if (kind === 'editor') return text.filter((t) => { try { return JSON.parse(t) === null; } catch { return true; } }); // any value means that the editor is open
  if (kind === 'events') return mostly(text, fc.constantFrom('{"events":null}', '{"events":5}', '{"events":{}}', '{"events":[null,5,"x",[]]}', '{"version":9}', '{"events":[{}]}', '{"events":"abc"}',
    '{"events":null,"nextId":3}', '{"events":5,"nextId":3}', '{"events":{},"nextId":3}', '{"events":[null],"nextId":3}', '{"events":[null,5,"x",true],"nextId":3}', '{"events":"abc","nextId":3}', '{"events":{"0":null,"length":1},"nextId":3}'));
  if (kind === 'identity') return mostly(text, fc.constantFrom('null', '5', '[]', '"x"', ...['5', 'null', 'true', '""', '[]', '["x"]', '{"a":1}'].flatMap((m) => [`{"web_exp_id_v2":${m}}`, `{"web_exp_id_v2":${m},"first_seen":${m}}`, `{"first_seen":${m}}`])));
  if (kind === 'session') return mostly(text, fc.constantFrom('{"sessionId":"s","lastEventTime":"$now"}', '{"sessionId":5,"lastEventTime":$now}', '{"sessionId":null,"lastEventTime":$now}', '{"lastEventTime":$now}', '{"sessionId":"s"}', '{"sessionId":"s","lastEventTime":[$now]}', '{"sessionId":"s","sessionStartTime":$now}', '{"sessionId":{},"lastEventTime":$now,"sessionStartTime":5}'));
  if (kind === 'campaign') return fc.oneof(text, dict(['x', 'a'], true));
  if (kind === 'queue') return fc.oneof(text, fc.constantFrom('[null,5]', '{"0":1,"length":1}', '[[]]', '["x"]'));
  return text;
};
const RULES = { beh: { b1: [[{ condition: { type: 'behavior', event_type: 'view', op: 'greater or equal', value: 1, time_type: 'rolling', time_value: 5, interval: 'day' } }]] } };
const flags = () => [webFlag('on', { a: [mutate([['x']])] }, 'a'), webFlag('rem', { a: [mutate([['y']])], b: [mutate([['y2']])] }, 'a', { remote: true }), webFlag('red', { a: [redirect(`${ORIGIN}/new`)] }, 'a'),
  webFlag('beh', { a: [mutate([['z']])] }, 'a', { segments: [{ conditions: [[{ op: 'set contains any', selector: ['context', 'user', 'behavioral_targeting'], values: ['b1'] }]], variant: 'a' }] }), webFlag('inj', { a: [inject('i1', { html: '<i class="i1"></i>', css: '.i1{}', js: 'void 0' })] }, 'a')];
const any = { p: pageObject('p', { re: '.*' }) };
const PAGES = { on: any, rem: any, beh: any, inj: any, red: { q: pageObject('q', { re: '/old' }) } };
const b64 = (t) => Buffer.from(encodeURIComponent(t)).toString('base64');
const actArb = (fc) => fc.constantFrom('view', 'view', 'view', 'wait', 'navigate', 'old', 'leave');
async function journey(c, script, corrupt) {
  const v = new Visitor({ script }); const out = [];
  const ids = {}; // who the visitor is must not change from one state to the next
  const same2 = (k) => { const u = (k && k.getExperimentClient().getUser()) || {}; return ['web_exp_id', 'web_exp_id_v2', 'first_seen'].map((f) => { const x = u[f], r = x === undefined ? 'none' : !(f in ids) ? typeof x : x === ids[f] ? 'same' : 'changed'; if (x !== undefined) ids[f] = x; return `${f} ${r}`; }); };
  let planted; // a corrupt session cookie which nothing read
  const sess = () => { try { const raw = v.jar.get(HOST, `EXP_${SLICE}_rtbt_session`), o = raw === planted ? null : JSON.parse(decodeURIComponent(raw)); return [typeof o.sessionId, o.sessionStartTime, o.lastEventTime]; } catch { return null; } };
  const remote = (r) => (/vardata/.test(r.url) ? { status: 200, delay: 5, body: { rem: { key: 'b', value: 'b', payload: [mutate([['y2']])] } } } : /\/flags/.test(r.url) ? (c.remote === 'ok' ? { status: 200, delay: 4, body: flags().filter((f) => f.key === 'rem').map((f) => ({ ...f, segments: [{ variant: 'b' }] })) } : c.remote === 'hang' ? 'hang' : { status: 500, delay: 2, body: 'x' }) : { status: 200, body: {} });
  const config = () => ({ redirectConfig: { encodeRedirectInCookie: c.cookie, encodeRedirectInUrl: true }, ...(c.consent ? { consentOptions: { consentRequired: true, consentStatus: c.consent === 'late' ? 'pending' : 'granted' } } : {}) });
  const visit = async (path, acts, what) => {
    const page = v.open(ORIGIN + path, { server: remote }); page.acceptTrack = () => c.accept;
    page.start({ flags: flags(), pages: PAGES, rules: RULES, config: config() });
    if (c.consent === 'late') { await v.clock.advance(60); page.M.index.setConsentStatus('granted'); }
    await v.clock.advance(1200);
    const state = (label) => { const k = page.client; out.push({ what: `${what} ${label}`, running: Boolean(k && k.isRunning), url: page.url, pages: page.activePages(), mutations: page.mutations().map((m) => m.value).sort(), injected: page.document.adoptedStyleSheets.filter((x) => /i1/.test(x.text)).length, overlay: page.overlay(), navigations: page.navigations.map((n) => n.url), impressions: page.impressions().map((i) => `${i.flag} ${i.variant}`), behaviors: (k && k.getExperimentClient().getUser() || {}).behavioral_targeting || [], props: ((k && k.getExperimentClient().getUser()) || {}).user_properties, campaign: ((k && k.getExperimentClient().getUser()) || {}).persisted_url_param, identity: same2(k), session: sess(), errors: page.errors.map(String) }); };
    state('after the load');
    for (const a of acts) {
      if (a === 'view') await page.M.index.createPlugin().execute({ event_type: 'view', event_properties: {} }); else if (a === 'wait') await v.clock.advance(3000); else if (a === 'navigate') page.window.history.pushState({}, '', '/other'); else if (a === 'old') page.window.history.pushState({}, '', '/old'); else { page.window.dispatchEvent(new page.window.Event('beforeunload')); page.window.dispatchEvent(new page.window.Event('pagehide')); }
      await v.clock.advance(700); state(`after ${a}`);
    }
    page.window.dispatchEvent(new page.window.Event('beforeunload')); page.window.dispatchEvent(new page.window.Event('pagehide'));
    page.close(); await settle(1); v.clock.timers.clear(); v.clock.now += 3000;
    return page.navigations[0];
  };
  try {
    for (const s of c.before) { const n = await visit(s.path, s.acts, 'earlier visit'); if (n && s.follow) await visit(new URL(n.url).pathname, [], 'earlier redirect'); }
    out.length = 0; for (const f of Object.keys(ids)) delete ids[f]; let query = '';
    for (const b of c.bad) {
      const [where, key] = b.entry;
      if (where === 'url') { if (corrupt && b.text) query = `${c.path.includes('?') ? '&' : '?'}${key}=${encodeURIComponent(b.raw ? b.text : Buffer.from(b.text, 'latin1').toString('base64'))}`; continue; }
      if (where === 'cookie') { for (const d of ['', '; domain=.example.com']) v.jar.set(HOST, `${key}=; path=/; max-age=0${d}`); if (corrupt) { const t = b.text.replaceAll('$now', String(v.clock.now)), w = b.wrap || b.entry[2] === 'identity' ? JSON.stringify(t) : t; v.jar.set(HOST, `${key}=${b.raw || b.entry[2] === 'session' ? encodeURIComponent(t) : b64(w)}; path=/; max-age=9999; domain=.example.com`); if (b.entry[2] === 'session') planted = v.jar.get(HOST, key); } continue; }
      const st = where === 'local' ? v.local(ORIGIN) : v.session(ORIGIN); st.m.delete(key); if (corrupt) st.m.set(key, b.text);
    }
    await visit(c.path + query, c.acts, 'visit'); await visit(c.next, [], 'next visit');
    return out;
  } finally { v.close(); await settle(1); }
}
export default {
  id: 'T21', level: 'exploration',
  rule: 'a case is non-trivial when an entry which the SDK had written, or would read on the visited page, is replaced by text it cannot have written',
  assumptions: ['the text is not itself a well-formed entry', 'fields of identity, session and cache entries are covered by T15, T12 and X03'],
  async setup() { return { script: await bundleScript('tag') }; },
  parts: [{ name: 'differential', what: 'page loads over corrupt entries, cookies and URL parameters behave as if these entries were absent, on that page and the next', runs: { quick: 500, thorough: 20000 }, expect: { redirectEntry: 0.2 },
    arb: (fc) => fc.record({
      before: fc.array(fc.record({ path: fc.constantFrom('/a', '/a?utm_source=s1', '/old', '/old?x=1'), acts: fc.array(actArb(fc), { maxLength: 2 }), follow: fc.boolean() }), { maxLength: 2 }),
      bad: fc.array(fc.constantFrom(...ENTRIES).chain((entry) => fc.record({ entry: fc.constant(entry), text: garbage(fc, entry[2]), raw: fc.boolean(), wrap: fc.boolean() })), { minLength: 1, maxLength: 3 }),
      path: fc.constantFrom('/a', '/old', '/old', '/new', '/new?x=1', '/a?utm_source=s2'), acts: fc.array(actArb(fc), { minLength: 1, maxLength: 3 }), next: fc.constantFrom('/a', '/new', '/old'),
      remote: fc.constantFrom('ok', 'hang', 'fail'), cookie: fc.boolean(), accept: fc.constantFrom(true, true, true, false), consent: fc.constantFrom(null, null, 'granted', 'late'),
    }),
    async check(c, ctx, { script }) {
      const want = await journey(c, script, false); const got = await journey(c, script, true);
      ctx.nontrivial(true); ctx.cls('redirectEntry', c.bad.some((b) => /REDIRECT/.test(b.entry[1]))); for (const b of c.bad) ctx.cls(`entry ${b.entry[0]} ${b.entry[1].replace(SLICE, 'K')}`);
      const bad = c.bad.map((b) => [b.entry[0], b.entry[1], b.text]);
      for (let i = 0; i < want.length; i++) same(got[i], want[i], `with ${show(bad)}, ${want[i].what}`);
    } }],
};
