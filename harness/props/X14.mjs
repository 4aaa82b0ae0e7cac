import { scopedBundle } from '../lib/build.mjs';
import { clientPage, Clock } from '../lib/client.mjs';
import { decodeUser } from '../lib/world.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const KEYS = ['flag-a', 'flag-b', 'constructor', 'toString'];
const copy = (x) => (x === undefined ? undefined : JSON.parse(JSON.stringify(x)));
const served = (fc) => fc.oneof({ weight: 5, arbitrary: fc.constantFrom('on', 'off', 'control').map((v) => ({ key: v, value: v })) }, { weight: 1, arbitrary: fc.constantFrom({ key: 'on', value: 'v1' }, { key: 'empty' }, { key: 'off', value: 'off', metadata: { trackExposure: false } }, { key: 'x', value: 'constructor' }) });
const opArb = (fc) => fc.oneof(
  { weight: 4, arbitrary: fc.record({ op: fc.constant('serve'), map: fc.uniqueArray(fc.tuple(fc.constantFrom(...KEYS), served(fc)), { maxLength: 3, selector: (x) => x[0] }) }) },
  { weight: 9, arbitrary: fc.record({ op: fc.constantFrom('variant', 'variant', 'exposure'), key: fc.constantFrom(...KEYS, 'flag-a'), fallback: fc.constantFrom(undefined, undefined, 'fb') }) },
  { weight: 1, arbitrary: fc.constant({ op: 'clear' }) }, { weight: 1, arbitrary: fc.record({ op: fc.constant('user'), id: fc.constantFrom('u1', 'u2') }) });
const STYLES = ['full', 'track only', 'without unset', 'amplitude'];
export default {
  id: 'X14', level: 'exploration',
  rule: 'a case is non-trivial when a flag is looked up again after its assignment changed or was taken away, or the analytics instance is only partly initialised',
  assumptions: ['a legacy provider is told once per page life and change, whatever the identity', 'fields an analytics instance does not know say nothing about the user'],
  async setup() { return { bundle: await scopedBundle('browser') }; },
  parts: [
    { name: 'legacy', what: 'lookups under changing assignments with full and partial analytics providers and the Amplitude provider: set and track once per new value, unset once per loss', runs: { quick: 2500, thorough: 80000 }, expect: { changed: 0.15, partial: 0.2 },
      arb: (fc) => fc.record({ style: fc.constantFrom(...STYLES), auto: fc.constantFrom(true, true, true, false), ops: fc.array(opArb(fc), { minLength: 3, maxLength: 16, size: 'max' }) }),
      async check(c, ctx, { bundle }) {
        const calls = []; let now = {}; const clock = new Clock(); let changed = false;
        const page = clientPage({ bundle, clock, vardata: () => ({ body: now }) });
        let provider;
        if (c.style === 'amplitude') {
          const amplitude = { logEvent(...a) { if (this !== amplitude) fail('logEvent called without its instance'); calls.push(['track', a]); }, setUserProperties(...a) { if (this !== amplitude) fail('setUserProperties called without its instance'); calls.push(['set', a]); }, _logEvent(...a) { if (this !== amplitude) fail('_logEvent called without its instance'); calls.push(['unset', a]); } };
          provider = new page.M.index.AmplitudeAnalyticsProvider(amplitude);
        } else {
          provider = { track(e) { if (this !== provider) fail('track called without its provider'); calls.push(['track', copy(e)]); } };
          if (c.style !== 'track only') provider.setUserProperty = function (e) { if (this !== provider) fail('setUserProperty called without its provider'); calls.push(['set', copy(e)]); };
          if (c.style === 'full') provider.unsetUserProperty = function (e) { if (this !== provider) fail('unsetUserProperty called without its provider'); calls.push(['unset', copy(e)]); };
        }
        const client = page.init('some-key', { fetchOnStart: false, pollOnStart: false, automaticExposureTracking: c.auto, analyticsProvider: provider });
        let stored = new Map(), user; const told = new Map();
        for (const o of c.ops) {
          if (o.op === 'serve') { now = {}; for (const [k, v] of o.map) Object.defineProperty(now, k, { value: v, enumerable: true, writable: true, configurable: true }); await client.fetch(user ? { user_id: user } : undefined); stored = new Map(o.map); }
          else if (o.op === 'clear') { client.clear(); stored = new Map(); }
          else if (o.op === 'user') { user = o.id; client.setUser({ user_id: o.id }); }
          else {
            calls.length = 0; const v = stored.get(o.key); let got;
            try { got = o.op === 'variant' ? client.variant(o.key, o.fallback) : client.exposure(o.key); } catch (e) { fail(`${o.op} of ${o.key} threw ${e.stack}`); }
            if (o.op === 'variant') same(got.value, v ? v.value : o.fallback, `value of ${o.key}`);
            let want = [];
            if ((o.op === 'exposure' || c.auto) && !(v && v.metadata)) {
              const state = v && v.value ? `=${v.value}` : 'unset', before = told.get(o.key);
              if (before !== undefined && before !== state) changed = true;
              if (before !== state) { want = v && v.value ? ['set', 'track'] : ['unset']; told.set(o.key, state); }
              if (c.style === 'track only') want = want.filter((x) => x === 'track'); if (c.style === 'without unset') want = want.filter((x) => x !== 'unset');
            }
            same(calls.map((x) => x[0]), want, `calls for ${o.op} of ${o.key}, assigned ${show(v)}, told before ${show([...told])}`);
            const property = `[Experiment] ${o.key}`;
            for (const [kind, e] of calls) {
              if (c.style === 'amplitude') { if (kind === 'track') { same(e[0], '[Experiment] Exposure', 'event name'); same([e[1].key, e[1].variant], [o.key, v.value], 'event properties'); } else if (kind === 'set') same(e, [{ [property]: v.value }], 'user properties set'); else same([e[0], Object.keys(e[3].$unset)], ['$identify', [property]], 'user property unset'); }
              else { same([e.name, e.key, e.userProperty, e.properties.key], ['[Experiment] Exposure', o.key, property, o.key], `${kind} event`); if (kind !== 'unset') { same([e.variant.value, e.properties.variant, e.userProperties[property]], [v.value, v.value, v.value], `${kind} event value`); } same(e.user.user_id, user, 'user of the event'); }
            }
          }
        }
        ctx.nontrivial(changed || c.style !== 'full'); ctx.cls('changed', changed); ctx.cls('partial', c.style === 'track only' || c.style === 'without unset');
      } },
    { name: 'identity', what: 'the identity of a legacy Amplitude instance, at whatever stage of its initialisation, reaches requests and local evaluation', runs: { quick: 1500, thorough: 40000 }, expect: { partly: 0.2 },
      arb: (fc) => { const instance = fc.oneof({ weight: 1, arbitrary: fc.constantFrom(undefined, null, {}, { options: undefined }, { options: {} }, { options: { deviceId: 'd' }, _ua: {} }) }, { weight: 4, arbitrary: fc.record({ options: fc.record({ deviceId: fc.constantFrom('d1', 'd2'), userId: fc.constantFrom('u1', 'ü'), versionName: fc.constantFrom('1.2.3'), language: fc.constantFrom('de', 'fr'), platform: fc.constantFrom('Web', 'iOS') }, { requiredKeys: [] }), _ua: fc.record({ browser: fc.record({ name: fc.constantFrom('Chrome', 'Firefox'), major: fc.constantFrom('99', '1') }, { requiredKeys: [] }), os: fc.record({ name: fc.constantFrom('Windows', 'Linux') }, { requiredKeys: [] }) }, { requiredKeys: [] }) }, { requiredKeys: [] }) });
        return fc.record({ bare: fc.boolean(), stages: fc.array(fc.record({ instance, user: fc.constantFrom(undefined, { user_id: 'mine' }, { device_id: 'md' }) }), { minLength: 1, maxLength: 3 }) }); },
      async check(c, ctx, { bundle }) {
        const page = clientPage({ bundle, vardata: () => ({ body: {} }) }); const hasInstance = c.stages[0].instance !== undefined && c.stages[0].instance !== null;
        // the instance fills in as it is initialised
        const live = hasInstance ? copy(c.stages[0].instance) : c.stages[0].instance; const provider = new page.M.index.AmplitudeUserProvider(live);
        const cfg = { fetchOnStart: false, pollOnStart: false, retryFetchOnFailure: false, initialFlags: JSON.stringify([{ key: 'f', variants: { on: { key: 'on' }, off: { key: 'off' } }, segments: [{ conditions: [[{ selector: ['context', 'user', 'device_id'], op: 'is', values: ['d1'] }]], variant: 'on' }, { variant: 'off' }], metadata: { evaluationMode: 'local' } }]), userProvider: provider };
        const client = c.bare ? new page.M.index.ExperimentClient('some-key', cfg) : page.init('some-key', cfg);
        for (const s of c.stages) {
          if (hasInstance) { delete live.options; delete live._ua; if (s.instance) Object.assign(live, copy(s.instance)); }
          const opt = (live && live.options) || {}, ua = (live && live._ua) || {};
          let p; try { p = client.fetch(s.user || {}); } catch (e) { fail(`fetch threw ${e.stack}`); } await p;
          const u = decodeUser(page.requests.filter((r) => r.kind === 'vardata').pop().headers);
          const want = { device_id: (s.user && s.user.device_id) ?? opt.deviceId, user_id: (s.user && s.user.user_id) ?? opt.userId, version: opt.versionName };
          for (const k of Object.keys(want)) same(u[k], want[k], `${k} in the request with ${show(live)}`);
          for (const [k, x] of [['language', opt.language], ['platform', opt.platform], ['device_model', ua.os && ua.os.name]]) if (x !== undefined) same(u[k], x, `${k} in the request`);
          if (ua.browser && (ua.browser.name || ua.browser.major)) same(u.os, [ua.browser.name, ua.browser.major].filter((x) => x !== undefined).join(' '), 'os in the request');
          same(client.variant('f').key, want.device_id === 'd1' ? 'on' : 'off', 'flag targeting the device');
        }
        const partly = c.stages.some((s) => !s.instance || !s.instance.options || !s.instance._ua); ctx.nontrivial(partly); ctx.cls('partly', partly);
      } },
    { name: 'stub', what: 'the stub client of pages without a window answers every call of a client without effect and without failing', runs: { quick: 500, thorough: 5000 },
      arb: (fc) => fc.array(fc.record({ op: fc.constantFrom('variant', 'all', 'fetch', 'start', 'stop', 'setUser', 'getUser', 'exposure', 'clear', 'setUserProvider', 'getUserProvider'), arg: fc.constantFrom(undefined, 'flag', { user_id: 'u' }) }), { minLength: 3, maxLength: 12 }),
      async check(ops, ctx, { bundle }) {
        const page = clientPage({ bundle }); const stub = new page.M.index.StubExperimentClient();
        for (const o of ops) {
          let r; try { r = stub[o.op](o.arg); if (r && typeof r.then === 'function') r = await r; } catch (e) { fail(`${o.op} failed: ${e.stack}`); }
          if (o.op === 'variant') { if (!r || typeof r !== 'object' || r.value || r.key) fail(`variant of the stub is ${show(r)}`); } else if (o.op === 'all' || o.op === 'getUser') same(copy(r), {}, o.op); else if (o.op === 'fetch' || o.op === 'setUserProvider') { if (r !== stub) fail(`${o.op} does not return the client`); }
        }
        same(page.requests, [], 'requests'); same([...page.local.m], [], 'local storage'); ctx.nontrivial(ops.some((o) => o.op === 'variant'));
      } },
  ],
};
