import { scopedBundle, bundleScript } from '../lib/build.mjs';
import { Visitor, webFlag, pageObject, mutate, redirect, settle, esc, SLICE } from '../lib/tagworld.mjs';
import { tagPage, Clock, Jar, MemStorage } from '../lib/taglight.mjs';
import { fail, same, show } from '../lib/runner.mjs';
const KEYS = ['client-deployment', 'other-deployment', 'client-dep'];
const UTM = ['utm_source', 'utm_medium', 'utm_campaign', 'utm_term', 'utm_content', 'utm_id'];
const OTHER = ['gclid', 'fbclid', 'utmx', 'Utm_source', 'referrer', 'q', 'xutm_source'];
const val = (fc) => fc.oneof({ weight: 3, arbitrary: fc.constantFrom('google', 'a b', 'ü/&=?#%', '1', 'email') }, { weight: 1, arbitrary: fc.string({ unit: 'grapheme', minLength: 1, maxLength: 5 }) });
const bag = (fc) => fc.dictionary(fc.oneof({ weight: 4, arbitrary: fc.constantFrom(...UTM) }, { weight: 2, arbitrary: fc.constantFrom(...OTHER) }), val(fc), { maxKeys: 5 });
const stored = (fc) => fc.oneof({ weight: 5, arbitrary: fc.record({ bag: bag(fc) }) }, { weight: 1, arbitrary: fc.record({ raw: fc.constantFrom('{', 'null', '5', '"utm_source"', '[]', '', '%%%') }) });
const b64 = (x) => Buffer.from(encodeURIComponent(JSON.stringify(x)), 'latin1').toString('base64');
const well = (s) => { try { encodeURIComponent(s); return true; } catch { return false; } };
const only = (x) => (x && typeof x === 'object' ? Object.fromEntries(Object.entries(x).filter(([k]) => k.startsWith('utm_'))) : {});
const opArb = (fc) => fc.oneof(
  { weight: 6, arbitrary: fc.record({ op: fc.constant('load'), key: fc.nat(KEYS.length - 1), url: bag(fc), user: fc.record({ user_id: fc.constantFrom('u', undefined), user_properties: fc.option(fc.constant({ utm_source: 'mine' }), { nil: undefined }) }) }) },
  { weight: 2, arbitrary: fc.record({ op: fc.constant('amplitude'), key: fc.nat(KEYS.length - 1), v: stored(fc) }) },
  { weight: 1, arbitrary: fc.record({ op: fc.constant('own'), key: fc.nat(KEYS.length - 1), v: stored(fc) }) },
  { weight: 1, arbitrary: fc.constant({ op: 'lose' }) });
const plain = (x) => JSON.parse(JSON.stringify(x || {}));
const HOSTS = ['www.example.com', 'app.example.com'], TO = { www: 'https://www.example.com/t', app: 'https://app.example.com/t', own: 'https://www.example.com/t?utm_source=mine&x=1' };
const SOURCES = ['google', 'email', 'ü&b', undefined, undefined], CLICK = ['gclid', 'fbclid', 'msclkid'];
const visitArb = (fc) => fc.record({ host: fc.constantFrom(...HOSTS), path: fc.constantFrom('/a', '/r', '/r'), utm: fc.record({ utm_source: fc.constantFrom(...SOURCES), utm_medium: fc.constantFrom('cpc', undefined, undefined), utm_id: fc.constantFrom('7', undefined, undefined) }), extra: fc.dictionary(fc.constantFrom(...CLICK, 'q', 'utmx'), fc.constantFrom('1', 'a&b'), { maxKeys: 2 }), referrer: fc.constantFrom(undefined, 'https://search.test/', 'https://www.example.com/a', 'https://blog.test/x?y=1'), analytics: fc.constantFrom(undefined, undefined, { utm_source: 'email', utm_term: 'shoes' }, { utm_source: 'google' }) });
const sourceIs = (v) => [[{ op: 'is', selector: ['context', 'user', 'persisted_url_param', 'utm_source'], values: [v] }]];
/** The whole tag: what targets, what is sent for remote evaluation, and the campaign kept over a redirect. */
async function visits(c, ctx, { script }) {
  const v = new Visitor({ script }); const own = {}; let analytics, redirected = 0, targeted = 0;
  const flags = (served) => [webFlag('f', { on: [mutate([['f']])] }, undefined, { segments: [{ metadata: { segmentName: 'S' }, conditions: sourceIs('google'), variant: 'on' }, { metadata: { segmentName: 'All Other Users' }, variant: 'off' }] }), webFlag('g', { on: [mutate([['g']])] }, undefined, { remote: !served, segments: [{ metadata: { segmentName: 'S' }, conditions: sourceIs('email'), variant: 'on' }, { metadata: { segmentName: 'All Other Users' }, variant: 'off' }] }), webFlag('r', { on: [redirect(TO[c.to])] }, 'on')];
  const pages = { f: { pf: pageObject('pf', { re: '^https://' }) }, g: { pg: pageObject('pg', { re: '^https://' }) }, r: { pr: pageObject('pr', { re: `^${esc('https://www.example.com/r')}([?#]|$)` }) } };
  const cookies = () => Object.fromEntries(v.jar.text('shop.example.com').split('; ').filter(Boolean).map((x) => [x.slice(0, x.indexOf('=')), x.slice(x.indexOf('=') + 1)]));
  const load = async (url, referrer) => {
    const seen = {}; const page = v.open(url, { referrer, server: (r) => (/\/flags/.test(r.url) ? { status: 200, delay: 5, body: flags(true).filter((f) => f.key === 'g') } : 'hang') });
    const given = Object.fromEntries([...new URL(url).searchParams].filter(([k]) => UTM.includes(k))); const want = { ...analytics, ...own[page.window.location.origin], ...given };
    if (Object.keys(want).length) own[page.window.location.origin] = want; page.start({ flags: flags(false), pages, config: c.inUrl ? { redirectConfig: { encodeRedirectInUrl: true } } : {} });
    for (let i = 0; i < 5; i++) { await settle(); await page.advance(10); }
    return { page, want, given, seen };
  };
  try {
    for (const o of c.list) {
      v.newTab(); if (o.analytics) { v.jar.set('www.example.com', `AMP_MKTG_${SLICE}=${b64(o.analytics)}; path=/; domain=.example.com`); analytics = o.analytics; }
      const q = new URLSearchParams(Object.entries({ ...o.utm, ...o.extra }).filter(([, x]) => x !== undefined)); const url = `https://${o.host}${o.path}${String(q) ? '?' + q : ''}`;
      const { page, want, given } = await load(url, o.referrer); const n = page.navigations; const go = o.path === '/r' && o.host === HOSTS[0];
      const user = page.client.getExperimentClient().getUser(); same(plain(user.persisted_url_param), want, `campaign of the user at ${url}`);
      if (go !== n.length > 0) fail(`${n.length} navigations from ${url}`);
      if (!go) { const on = page.mutations().map((m) => m.value || m).map(String); const f = page.client.getExperimentClient().all(); for (const [k, x] of [['f', 'google'], ['g', 'email']]) { const is = f[k]?.key === 'on' || f[k]?.value === 'on'; if (is !== (want.utm_source === x)) fail(`${k} is ${show(f[k])} with utm_source ${want.utm_source} at ${url} (${on})`); } if (want.utm_source) targeted++; }
      else {
        redirected++; const raw = cookies()[`AMP_MKTG_ORIGINAL_${SLICE}`]; if (!raw) fail(`the campaign was not kept over the redirect from ${url}: ${show(cookies())}`);
        const kept = JSON.parse(decodeURIComponent(Buffer.from(decodeURIComponent(raw), 'base64').toString('latin1'))); const clean = Object.fromEntries(Object.entries(kept).filter(([, x]) => x !== undefined && x !== null));
        const expected = { ...given, ...Object.fromEntries(Object.entries(o.extra).filter(([k]) => CLICK.includes(k))), ...(o.referrer ? { referrer: o.referrer, referring_domain: o.referrer.split('/')[2] } : {}) };
        same(clean, expected, `campaign kept over the redirect from ${url}`);
        const to = n[0].url; page.close(); const next = await load(to, url); same(plain(next.page.client.getExperimentClient().getUser().persisted_url_param), next.want, `campaign of the user after the redirect to ${to}`); next.page.close();
      }
      page.close();
    }
    ctx.nontrivial(redirected + targeted > 0); ctx.cls('redirected', redirected > 0); ctx.cls('targeted', targeted > 0);
  } finally { v.close(); await settle(1); }
}
export default {
  id: 'T16', level: 'exploration',
  rule: 'a case is non-trivial when a load takes parameters from at least two of URL, own persisted data and analytics data, or shadows one by another',
  assumptions: ['a parameter without a value counts as absent (as the analytics library parses it)', 'only the six utm parameters are read from URLs; every utm_-named field of persisted data counts'],
  async setup() { return { bundle: await scopedBundle('tag'), script: await bundleScript('tag') }; },
  parts: [{
    name: 'loads', what: 'page loads with campaign URLs over persisted and analytics data of several deployments', runs: { quick: 4000, thorough: 150000 }, expect: { mixed: 0.2 },
    arb: (fc) => fc.array(opArb(fc), { minLength: 1, maxLength: 8, size: 'max' }),
    async check(ops, ctx, { bundle }) {
      const clock = new Clock(), jar = new Jar(clock), local = new MemStorage(); const own = {}, amp = {}; let mixed = 0;
      for (const o of ops) {
        const key = o.op === 'lose' ? '' : KEYS[o.key], k10 = key.slice(0, 10);
        if (o.op === 'lose') { local.clear(); for (const k of Object.keys(own)) delete own[k]; continue; }
        if (o.op === 'own') { const raw = o.v.bag ? JSON.stringify(o.v.bag) : o.v.raw; local.setItem(`EXP_MKTG_${k10}`, raw); own[k10] = o.v.bag || {}; continue; }
        if (o.op === 'amplitude') { if (o.v.bag && !Object.values(o.v.bag).every(well)) continue; jar.set('www.example.com', `AMP_MKTG_${k10}=${o.v.bag ? b64(o.v.bag) : o.v.raw}; path=/; domain=.example.com`); amp[k10] = o.v.bag || {}; continue; }
        const q = Object.entries(o.url).filter(([, v]) => well(v)).map(([k, v]) => `${encodeURIComponent(k)}=${encodeURIComponent(v)}`).join('&');
        const page = tagPage({ bundle, clock, jar, local, url: 'https://www.example.com/p' + (q ? '?' + q : '') });
        const url = Object.fromEntries(Object.entries(o.url).filter(([k, v]) => UTM.includes(k) && well(v)));
        const user = JSON.parse(JSON.stringify(o.user)), before = show(user);
        const got = await page.M.campaign.enrichUserWithCampaignData(key, user);
        const a = only(amp[k10]), p = only(own[k10]); const want = { ...a, ...p, ...url };
        const names = Object.keys(want).length;
        same(show(user), before, 'user passed in');
        if (names) { same(got, { ...user, persisted_url_param: want }, 'enriched user'); own[k10] = want; same(JSON.parse(local.getItem(`EXP_MKTG_${k10}`)), want, 'persisted parameters'); } else same(got, user, 'user without any campaign data');
        for (const k of new Set(KEYS.map((x) => x.slice(0, 10)))) if (k !== k10 && own[k] && Object.keys(own[k]).length) same(JSON.parse(local.getItem(`EXP_MKTG_${k}`)), own[k], 'persisted parameters of another deployment');
        if ([a, p, url].filter((x) => Object.keys(x).length).length > 1) mixed++;
      }
      ctx.nontrivial(mixed > 0); ctx.cls('mixed', mixed > 0);
    },
  }, {
    name: 'visits', what: 'visits of the whole tag: targeting by campaign, redirects which keep the original campaign in a cookie of the site', runs: { quick: 500, thorough: 15000 }, expect: { redirected: 0.3, targeted: 0.3 },
    arb: (fc) => fc.record({ to: fc.constantFrom(...Object.keys(TO)), inUrl: fc.boolean(), list: fc.array(visitArb(fc), { minLength: 1, maxLength: 4 }) }), check: visits,
  }],
};
