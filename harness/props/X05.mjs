import { scopedBundle } from '../lib/build.mjs';
import { clientPage, Clock, CookieJar, settle } from '../lib/client.mjs';
import { decodeUser } from '../lib/world.mjs';
import { same, fail, show } from '../lib/runner.mjs';
import * as g from '../lib/genclient.mjs';
const copy = (x) => (x === undefined ? undefined : structuredClone(x));
const FIELDS = ['user_id', 'device_id', 'country', 'city', 'version', 'carrier'];
const PROPS = ['plan', 'tier', 'n'];
const DEF = ['language', 'platform', 'device_category', 'os'];
const tagged = (fc, tag, nulls) => fc.record({
  ...Object.fromEntries(FIELDS.map((f) => [f, fc.oneof({ weight: 3, arbitrary: fc.constantFrom(`${tag}1`, `${tag}2`) }, ...(nulls ? [{ weight: 1, arbitrary: fc.constantFrom(null, undefined) }] : []))])),
  ...Object.fromEntries(DEF.map((f) => [f, fc.constantFrom(`${tag}1`, `${tag}2`)])),
  user_properties: fc.oneof({ weight: 6, arbitrary: fc.record(Object.fromEntries(PROPS.map((p) => [p, fc.constantFrom(`${tag}1`, `${tag}2`, [`${tag}1`], 7, false)])), { requiredKeys: [] }) }, { weight: nulls ? 1 : 0, arbitrary: fc.constantFrom(null, undefined) }),
  groups: fc.constantFrom({ org: [`${tag}1`] }, { org: [`${tag}2`], team: ['x'] }, { org: [`${tag}2`, `${tag}1`] }, { org: [] }), group_properties: fc.constantFrom({ org: { [`${tag}1`]: { size: 3 } } }),
  cookie: fc.constantFrom({ secret: '1' }), custom: fc.constantFrom('c1'),
}, { requiredKeys: [] });
const user = (fc, tag) => fc.oneof({ weight: 5, arbitrary: tagged(fc, tag, true) }, { weight: 1, arbitrary: fc.constant({}) });
const present = (u) => Object.fromEntries(Object.entries(u || {}).filter(([, v]) => v !== null && v !== undefined));
/** reference merge, lowest priority first */
function merged(...us) {
  const out = {}; const props = {};
  for (const u of us) { Object.assign(out, present(u)); Object.assign(props, (u && u.user_properties) || {}); }
  out.user_properties = props;
  return out;
}
const watch = ['user_id', 'device_id', 'country', 'city', 'version', 'carrier', 'language', 'platform'];
const vals = ['e1', 'e2', 'i1', 'i2', 'p1', 'p2', 'm1', 'en-US', 'Web'];
const flag = (key, sel, values) => ({ key, metadata: { evaluationMode: 'local' }, variants: Object.fromEntries([...values, 'other'].map((v) => [v, { key: v }])), segments: [...values.map((v) => ({ conditions: [[{ selector: ['context', ...sel], op: 'is', values: [v] }]], variant: v })), { variant: 'other' }] });
const FLAGS = [...watch.map((f) => flag('f-' + f, ['user', f], vals)), ...PROPS.map((f) => flag('p-' + f, ['user', 'user_properties', f], vals)), flag('g-org', ['groups', 'org', 'group_name'], vals)];
const opArb = (fc) => fc.oneof(
  { weight: 3, arbitrary: fc.record({ op: fc.constant('setUser'), user: fc.oneof({ weight: 6, arbitrary: user(fc, 'e') }, { weight: 1, arbitrary: fc.constantFrom(null, undefined) }) }) },
  { weight: 3, arbitrary: fc.record({ op: fc.constant('fetch'), user: fc.option(user(fc, 'e'), { nil: undefined, freq: 3 }) }) },
  { weight: 2, arbitrary: fc.record({ op: fc.constant('mutate'), field: fc.constantFrom('user_id', 'country'), prop: fc.constantFrom(...PROPS), del: fc.boolean() }) },
  { weight: 1, arbitrary: fc.record({ op: fc.constant('mutateGot'), prop: fc.constantFrom(...PROPS) }) },
  { weight: 1, arbitrary: fc.record({ op: fc.constant('provider'), user: tagged(fc, 'p', false) }) },
  { weight: 1, arbitrary: fc.record({ op: fc.constant('integration'), user: tagged(fc, 'i', true) }) },
  { weight: 2, arbitrary: fc.constant({ op: 'look' }) });
export default {
  id: 'X05', level: 'exploration',
  rule: 'a case is non-trivial when at least two of explicit, integration and provider user define the same field or property, or a caller object is modified after being set',
  assumptions: ['a provider leaves out the library default fields it does not know instead of giving null', 'later modification of nested group objects is not covered (documented copy depth: fields and user properties)'],
  async setup() { return { bundle: await scopedBundle('browser') }; },
  parts: [
    { name: 'merge', what: 'request user and local evaluation context vs the reference merge; caller objects untouched and not aliased', runs: { quick: 2500, thorough: 80000 }, expect: { mutated: 0.2, sources2: 0.2 },
      arb: (fc) => fc.record({ provider: fc.option(tagged(fc, 'p', false), { nil: undefined, freq: 4 }), integration: fc.option(tagged(fc, 'i', true), { nil: undefined, freq: 3 }), ops: fc.array(opArb(fc), { minLength: 2, maxLength: 9, size: 'max' }) }),
      async check(c, ctx, { bundle }) {
        const clock = new Clock();
        const page = clientPage({ bundle, clock, cookies: new CookieJar({ session: 'top-secret' }), vardata: () => ({ body: {} }) });
        let prov = copy(c.provider), integ = copy(c.integration), reads = 0;
        const cfg = { fetchOnStart: false, pollOnStart: false, retryFetchOnFailure: false, initialFlags: JSON.stringify(FLAGS), automaticExposureTracking: false, throwOnError: true };
        if (c.provider) cfg.userProvider = { getUser: () => prov };
        const client = page.init('some-deployment', cfg);
        const plug = (u) => { integ = u; client.addPlugin({ type: 'integration', getUser: () => integ, track: () => true }); };
        if (c.integration) { plug(integ); await settle(); }
        let defaults = client.getUserProvider().getUser(); // library defaults with the provider's values on top
        const lib = (() => { const d = { ...defaults }; for (const k of Object.keys(prov || {})) delete d[k]; return d; })();
        const base = clientPage({ bundle, cookies: new CookieJar({ session: 'top-secret' }) }).init('some-deployment', {}).getUserProvider().getUser();
        for (const k of Object.keys(base)) if (k !== 'first_seen' && !(k in (prov || {}))) same(lib[k], base[k], `library default ${k}`);
        let providerIsLib = true; let explicit; let held; let n = 0;
        const expectedUser = (u) => merged(providerIsLib ? base : {}, prov, integ, u);
        const checkLocal = () => {
          const e = expectedUser(explicit); reads++;
          for (const f of watch) same(client.variant('f-' + f).key, vals.includes(e[f]) ? e[f] : 'other', `field ${f} seen by local evaluation`);
          for (const p of PROPS) { const v = e.user_properties[p]; const s = Array.isArray(v) ? v[0] : v; same(client.variant('p-' + p).key, vals.includes(s) ? s : 'other', `user property ${p} seen by local evaluation`); }
          const g = e.groups && e.groups.org && e.groups.org[0]; same(client.variant('g-org').key, vals.includes(g) ? g : 'other', 'group seen by local evaluation');
        };
        for (const o of c.ops) {
          if (o.op === 'setUser') { held = copy(o.user); const before = copy(o.user); client.setUser(held); same(held, before, 'user object after setUser'); explicit = o.user ? copy(o.user) : null; const got = client.getUser(); same(got ?? null, explicit, 'getUser after setUser'); }
          else if (o.op === 'mutate') { if (!held) continue; n++; held[o.field] = 'm1'; if (held.user_properties) { if (o.del) delete held.user_properties[o.prop]; else held.user_properties[o.prop] = 'm1'; } same(client.getUser() ?? null, explicit ?? null, 'getUser after the caller changed its own object'); }
          else if (o.op === 'mutateGot') { const u = client.getUser(); if (!u) continue; n++; u.user_id = 'm1'; if (u.user_properties) u.user_properties[o.prop] = 'm1'; same(client.getUser(), explicit, 'getUser after changing an earlier copy'); }
          else if (o.op === 'provider') { prov = copy(o.user); providerIsLib = false; client.setUserProvider({ getUser: () => prov }); }
          else if (o.op === 'integration') { plug(copy(o.user)); await settle(); }
          else if (o.op === 'look') checkLocal();
          else {
            const arg = copy(o.user); const before = [copy(arg), copy(prov), copy(integ)];
            const k = page.requests.length;
            await client.fetch(arg);
            same([arg, prov, integ], before, 'caller objects after fetch');
            if (o.user) held = arg; 
            explicit = o.user ? copy(o.user) : (explicit || (explicit === undefined || explicit === null ? {} : explicit));
            const r = page.requests.slice(k); same(r.length, 1, 'requests');
            const got = decodeUser(r[0].headers); const lib_ = got.library; delete got.library;
            if (!(typeof lib_ === 'string' && /^experiment-js-client\/\d/.test(lib_))) fail(`library ${show(lib_)}`);
            const want = expectedUser(explicit); delete want.cookie; delete got.first_seen; delete want.first_seen;
            same(got, JSON.parse(JSON.stringify(want)), 'user in the fetch request');
            if (/secret/.test(JSON.stringify(got))) fail('cookie sent to the server');
            same(client.getUser(), explicit, 'getUser after fetch');
          }
        }
        const snap = [copy(prov), copy(integ)]; checkLocal(); client.variant('f-user_id'); client.exposure('f-user_id'); same([prov, integ], snap, 'provider objects after lookups');
        const two = [explicit, integ, prov].filter(Boolean); const keys = two.flatMap((u) => [...Object.keys(present(u)), ...Object.keys(u.user_properties || {})]);
        ctx.nontrivial(n > 0 || new Set(keys).size < keys.length); ctx.cls('mutated', n > 0); ctx.cls('sources2', two.length >= 2);
      } },
    { name: 'flags-request', what: 'the flags request carries the identity only for web clients, and never more than the identity', runs: { quick: 600, thorough: 20000 },
      arb: (fc) => fc.record({ web: fc.boolean(), user: user(fc, 'e'), provider: fc.option(tagged(fc, 'p', false), { nil: undefined }) }),
      async check(c, ctx, { bundle }) {
        const page = clientPage({ bundle, flags: () => ({ body: [] }) });
        const cfg = { fetchOnStart: false, pollOnStart: false }; if (c.web) cfg.internalInstanceNameSuffix = 'web'; if (c.provider) cfg.userProvider = { getUser: () => copy(c.provider) };
        const client = page.init('some-deployment', cfg);
        await client.start(copy(c.user));
        const r = page.requests.filter((x) => x.kind === 'flags'); same(r.length, 1, 'flag requests');
        const e = merged(c.provider, c.user);
        const got = r[0].headers['X-Amp-Exp-User'] ? decodeUser(r[0].headers) : undefined;
        const want = {}; if (e.user_id) want.user_id = e.user_id; if (e.device_id) want.device_id = e.device_id;
        same(got, c.web && Object.keys(want).length ? want : undefined, 'user in the flags request');
        same(new URL(r[0].url).searchParams.get('delivery_method'), c.web ? 'web' : null, 'delivery method');
        ctx.nontrivial(c.web);
      } },
    { name: 'config-untouched', what: 'configuration, initial variants and fallbacks are as the caller left them after any use of the client', runs: { quick: 1200, thorough: 40000 }, expect: { legacy: 0.2 },
      arb: (fc) => fc.record({ initial: g.mapOf(g.stored()), mode: fc.constantFrom('localStorage', 'initialVariants'), fallback: g.fallback(), flags: g.flagMap(), served: g.mapOf(g.served()), user: g.user(), frozen: fc.boolean(), keys: fc.array(fc.constantFrom(...g.KEYS, 'none'), { minLength: 1, maxLength: 4 }), inline: g.fallback() }),
      async check(c, ctx, { bundle }) {
        const freeze = (x) => { if (x && typeof x === 'object') { Object.values(x).forEach(freeze); Object.freeze(x); } return x; };
        const events = []; const cfg = { fetchOnStart: true, pollOnStart: false, source: c.mode, initialVariants: copy(c.initial), initialFlags: JSON.stringify(Object.values(c.flags)), exposureTrackingProvider: { track: (e) => events.push(e) } };
        if (c.fallback !== undefined) cfg.fallbackVariant = copy(c.fallback);
        const watched = () => structuredClone({ i: cfg.initialVariants, f: cfg.fallbackVariant, k: Object.keys(cfg).sort(), s: cfg.source, fl: cfg.initialFlags });
        const before = watched(); const inline = copy(c.inline); const user = copy(c.user);
        if (c.frozen) { freeze(cfg.initialVariants); freeze(cfg.fallbackVariant); freeze(inline); freeze(user); }
        const page = clientPage({ bundle, vardata: () => ({ body: copy(c.served) }), flags: () => ({ body: Object.values(copy(c.flags)) }) });
        try {
          const client = page.init('some-deployment', cfg);
          for (const k of c.keys) client.variant(k, inline);
          await client.start(user); await settle();
          for (const k of c.keys) { client.variant(k, inline); client.exposure(k); }
          client.all(); await client.fetch(user); client.clear();
          for (const k of c.keys) { client.variant(k, inline); client.exposure(k); }
        } catch (e) { fail(`using the client threw ${e.stack}`); }
        same(watched(), before, 'configuration after use'); same(inline, c.inline, 'inline fallback after use'); same(user, c.user, 'user after use');
        const legacy = Object.values(c.initial).some((v) => typeof v === 'string' || v.expKey || (v.value && !v.key));
        ctx.cls('legacy', legacy); ctx.nontrivial(Object.keys(c.initial).length > 0);
      } },
  ],
};
