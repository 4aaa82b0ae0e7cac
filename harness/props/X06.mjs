import { scopedBundle } from '../lib/build.mjs';
import { clientPage, MemStorage, Clock, resolve, fromStored } from '../lib/client.mjs';
import * as g from '../lib/genclient.mjs';
import { same, fail, show, clean } from '../lib/runner.mjs';
const copy = (x) => (x === undefined ? undefined : JSON.parse(JSON.stringify(x)));
const extra = (fc) => ({ trackExposure: fc.constantFrom(true, false, true, null), exposureEvent: fc.constantFrom('Custom Event'), deliveryMethod: fc.constantFrom('web', 'feature') });
const rich = (fc) => fc.oneof({ weight: 4, arbitrary: g.served(extra(fc)) }, { weight: 2, arbitrary: g.stored() });
const withKey = (fc) => rich(fc).map((v) => (typeof v === 'string' ? v : v));
/** the exposure a lookup must report, or undefined */
export function expected(r, key) {
  const v = r.variant;
  const m = v && v.metadata;
  if (m && m.trackExposure !== undefined && m.trackExposure !== null && !m.trackExposure) return undefined;
  if (r.fallback && !r.hasDefault) return undefined;
  const e = { flag_key: key };
  if (!r.fallback && !(m && m.default)) { const val = v.key || v.value; if (val) e.variant = val; }
  if (v && v.expKey) e.experiment_key = v.expKey;
  if (m) e.metadata = m;
  return e;
}
export default {
  id: 'X06', level: 'exploration',
  rule: 'a case is non-trivial when the looked-up flag has an assignment (an exposure may be due) or a fallback competes with it',
  assumptions: ['precedence reference of harness/lib/client.mjs (property X01)'],
  async setup() { return { bundle: await scopedBundle('browser') }; },
  parts: [
    { name: 'single', what: 'one lookup or explicit exposure: exactly the exposure due reaches provider, integration and the legacy analytics provider', runs: { quick: 5000, thorough: 150000 },
      expect: { tracked: 0.2, 'served default with fallback': 0.02, none: 0.2, disabled: 0.02 },
      arb: (fc) => fc.record({ mode: fc.constantFrom('localStorage', 'localStorage', 'initialVariants'), stored: g.mapOf(withKey(fc)), initial: g.mapOf(withKey(fc)), flags: g.flagMap(), configFallback: g.fallback(), user: fc.option(g.user(), { nil: undefined }), auto: fc.boolean(), web: fc.boolean(), explicit: fc.boolean(), legacy: fc.boolean(), key: fc.constantFrom(...g.KEYS), inline: g.fallback(), extraMeta: fc.option(fc.record(extra(fc), { requiredKeys: [] }), { nil: undefined, freq: 2 }), n: fc.integer({ min: 1, max: 3 }) }),
      check(c, ctx, { bundle }) {
        const local = new MemStorage(), session = new MemStorage(); const clock = new Clock();
        const store = c.web ? session : local; const ns = c.web ? 'amp-exp-$default_instance-web-client' : 'amp-exp-$default_instance-client';
        // extra metadata of the flag, e.g. disabled tracking or a web delivery
        const flags = copy(c.flags); if (c.extraMeta) for (const f of Object.values(flags)) Object.assign((f.metadata = f.metadata || {}), c.extraMeta);
        store.setItem(ns, JSON.stringify(c.stored)); store.setItem(ns + '-flags', JSON.stringify(flags));
        const url = 'https://www.example.com/some/page?q=1';
        const page = clientPage({ bundle, clock, local, session, url });
        const tracked = [], events = [], legacy = [];
        const cfg = { fetchOnStart: false, pollOnStart: false, source: c.mode, initialVariants: copy(c.initial), automaticExposureTracking: c.auto, exposureTrackingProvider: { track: (e) => tracked.push(copy(e)) } };
        if (c.configFallback !== undefined) cfg.fallbackVariant = copy(c.configFallback);
        if (c.web) cfg.internalInstanceNameSuffix = 'web';
        if (c.legacy) cfg.analyticsProvider = { track: (e) => legacy.push(['track', e]), setUserProperty: (e) => legacy.push(['set', e]), unsetUserProperty: (e) => legacy.push(['unset', e]) };
        const client = page.init('my-client', cfg);
        client.addPlugin({ type: 'integration', getUser: () => ({}), track: (e) => { events.push(copy(e)); return true; } });
        if (c.user) client.setUser(copy(c.user));
        const conv = (m) => Object.fromEntries(Object.entries(m || {}).map(([k, v]) => [k, fromStored(copy(v))]).filter(([, v]) => v));
        const context = g.evalContext(c.user); 
        const s = { mode: c.mode, stored: conv(c.stored), initial: conv(c.initial), flags, fallbackVariant: c.configFallback ?? {}, context };
        const inline = c.explicit ? undefined : c.inline;
        const r = resolve(s, c.key, inline);
        const want = c.explicit || c.auto ? expected(r, c.key) : undefined;
        let first;
        for (let i = 0; i < c.n; i++) {
          if (c.explicit) client.exposure(c.key); else { const v = client.variant(c.key, copy(inline)); if (i === 0) first = copy(v); else same(copy(v), first, 'repeated lookup'); same(v, r.variant || {}, 'variant after tracking'); }
        }
        ctx.nontrivial(r.variant !== undefined || want !== undefined);
        ctx.cls(want ? 'tracked' : 'none'); ctx.cls('served default with fallback', Boolean(want && r.fallback)); ctx.cls('disabled', Boolean(r.variant && r.variant.metadata && r.variant.metadata.trackExposure === false)); ctx.cls('web', c.web);
        if (!want) { same(tracked, [], 'exposures when none is due'); same(events, [], 'events when none is due'); }
        else {
          const strip = (e) => { const x = copy(e); if (c.web) { if (typeof x.time !== 'number') fail(`web exposure without time: ${show(e)}`); delete x.time; if (x.metadata) { if (want.metadata && x.metadata.url !== 'https://www.example.com/some/page') fail(`web exposure url ${show(x.metadata.url)}`); delete x.metadata.url; } } return x; };
          same(tracked.length, 1, `exposures for ${c.n} identical lookups (${show(tracked)})`);
          const got = strip(tracked[0]);
          const w = copy(want);
          // the fallback's own description is not specified when the assignment was the default
          if (r.fallback) { for (const x of [got, w]) { delete x.metadata; delete x.experiment_key; } }
          same(got, w, `exposure (source ${r.source})`);
          const m = (r.variant && r.variant.metadata) || {};
          same(events.length, m.deliveryMethod === 'web' ? c.n : 1, 'integration events');
          for (const e of events) {
            same(e.eventType, m.exposureEvent || (m.deliveryMethod === 'web' ? '$impression' : '$exposure'), 'event type');
            const p = strip(e.eventProperties); if (r.fallback) { delete p.metadata; delete p.experiment_key; } same(p, w, 'event properties');
          }
        }
        if (c.legacy) {
          const on = (c.explicit || c.auto) && !(r.variant && r.variant.metadata && r.variant.metadata.trackExposure === false);
          const served = !r.fallback && r.variant && r.variant.value;
          const kinds = legacy.map((x) => x[0]);
          same(kinds, !on ? [] : served ? ['set', 'track'] : ['unset'], 'legacy analytics calls');
          for (const [, e] of legacy) { same(e.userProperty, `[Experiment] ${c.key}`, 'legacy user property'); if (served) same(e.variant.value, r.variant.value, 'legacy variant'); }
        } else same(legacy, [], 'legacy calls');
      }, sync: true },
  ],
};
