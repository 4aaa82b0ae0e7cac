import { scopedBundle } from '../lib/build.mjs';
import { clientPage, MemStorage, resolve, resolveAll, fromStored } from '../lib/client.mjs';
import * as g from '../lib/genclient.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const copy = (x) => (x === undefined ? undefined : JSON.parse(JSON.stringify(x)));
const base = { fetchOnStart: false, pollOnStart: false };
export default {
  id: 'X01', level: 'exploration',
  rule: 'a case is non-trivial when some looked-up key has at least two candidate sources (stored, initial, flag, inline or configured fallback)',
  assumptions: ['flag configurations contain no dependency cycle', 'reference precedence in harness/lib/client.mjs'],
  async setup() { return { bundle: await scopedBundle('browser') }; },
  parts: [
    { name: 'precedence', what: 'all combinations of sources per key x mode x fallback forms, variant() and all() vs the reference', sync: true, runs: { quick: 6000, thorough: 200000 },
      expect: { localFlag: 0.25, servedDefault: 0.05, inline: 0.2, oddKey: 0.2 },
      arb: (fc) => fc.record({
        key: fc.constantFrom('client-deployment-key', 'abc', ''), mode: fc.constantFrom('localStorage', 'initialVariants', undefined), stored: g.mapOf(g.stored()), initial: fc.option(g.mapOf(g.stored()), { nil: undefined }), flags: fc.oneof({ weight: 5, arbitrary: g.flagMap() }, { weight: 1, arbitrary: g.flagMap([...g.KEYS.slice(0, 2), ...g.ODD_KEYS.slice(0, 4)]) }),
        viaInitialFlags: fc.boolean(), configFallback: g.fallback(), user: fc.option(g.user(), { nil: undefined }), auto: fc.boolean(),
        lookups: fc.array(fc.tuple(fc.oneof({ weight: 5, arbitrary: fc.constantFrom(...g.KEYS) }, { weight: 2, arbitrary: fc.constantFrom('unknown', '', ...g.ODD_KEYS) }), g.fallback()), { minLength: 1, maxLength: 6 }),
      }).map((c) => (c.key === '' || c.key.length > 3 ? c : c)),
      check(c, ctx, { bundle }) {
        const local = new MemStorage();
        const suffix = c.key.substring(c.key.length - 6);
        local.setItem(`amp-exp-$default_instance-${suffix}`, JSON.stringify(c.stored));
        if (!c.viaInitialFlags) local.setItem(`amp-exp-$default_instance-${suffix}-flags`, JSON.stringify(c.flags));
        const page = clientPage({ bundle, local });
        const cfg = { ...base, automaticExposureTracking: c.auto };
        if (c.mode) cfg.source = c.mode;
        if (c.initial) cfg.initialVariants = copy(c.initial);
        if (c.viaInitialFlags) cfg.initialFlags = JSON.stringify(Object.values(c.flags));
        if (c.configFallback !== undefined) cfg.fallbackVariant = copy(c.configFallback);
        const client = page.init(c.key, cfg);
        if (c.user) client.setUser(copy(c.user));
        const conv = (m) => Object.fromEntries(Object.entries(m || {}).map(([k, v]) => [k, fromStored(copy(v))]).filter(([, v]) => v));
        const s = { mode: c.mode || 'localStorage', stored: conv(c.stored), initial: conv(c.initial), flags: c.flags, fallbackVariant: c.configFallback ?? {}, context: g.evalContext(c.user) };
        for (const [key, inline] of c.lookups) {
          const n = [s.stored, s.initial, s.flags].filter((m) => Object.prototype.hasOwnProperty.call(m, key)).length + (inline ? 1 : 0) + (c.configFallback ? 1 : 0);
          ctx.nontrivial(n >= 2); ctx.cls('inline', inline !== undefined && inline !== null); ctx.cls('oddKey', g.ODD_KEYS.includes(key));
          let got; try { got = client.variant(key, copy(inline)); } catch (e) { fail(`variant(${show(key)}) threw ${e.stack}`); }
          if (c.key === '') { same(got, { value: undefined }, 'variant without deployment key'); continue; }
          const want = resolve(s, key, inline);
          ctx.cls('source ' + want.source); ctx.cls('localFlag', Object.prototype.hasOwnProperty.call(s.flags, key) && s.flags[key].metadata?.evaluationMode === 'local'); ctx.cls('servedDefault', want.hasDefault && !want.fallback);
          same(got, want.variant || {}, `variant(${show(key)}, ${show(inline)}) [expected source ${want.source}]`);
        }
        const all = client.all();
        if (c.key === '') { same(all, {}, 'all() without deployment key'); return; }
        same(all, resolveAll(s), 'all()');
        same(client.all(), all, 'all() repeated');
      } },
    { name: 'after-fetch', what: 'the same precedence when variants and flags come from the server at start', runs: { quick: 1500, thorough: 40000 },
      arb: (fc) => fc.record({ mode: fc.constantFrom('localStorage', 'initialVariants'), served: g.mapOf(g.served()), stored: g.mapOf(g.stored()), initial: g.mapOf(g.stored()), flags: g.flagMap(), configFallback: g.fallback(), user: g.user(), lookups: fc.array(fc.tuple(fc.constantFrom(...g.KEYS, 'unknown'), g.fallback()), { minLength: 1, maxLength: 5 }), instance: fc.constantFrom(undefined, 'my-instance') }),
      async check(c, ctx, { bundle }) {
        const local = new MemStorage();
        local.setItem(`amp-exp-${c.instance || '$default_instance'}-nt-key`, JSON.stringify(c.stored));
        const page = clientPage({ bundle, local, vardata: () => ({ body: c.served }), flags: () => ({ body: Object.values(c.flags) }) });
        const client = page.init('deployment-key', { source: c.mode, initialVariants: copy(c.initial), fallbackVariant: copy(c.configFallback), pollOnStart: false, instanceName: c.instance });
        await client.start(copy(c.user));
        const conv = (m, f) => Object.fromEntries(Object.entries(m).map(([k, v]) => [k, f(copy(v))]).filter(([, v]) => v));
        const servedV = conv(c.served, (e) => { const v = {}; if (e.key) v.key = e.key; if (e.value) v.value = e.value; if (e.payload) v.payload = e.payload; if (e.metadata) { v.metadata = e.metadata; if (e.metadata.experimentKey) v.expKey = e.metadata.experimentKey; } return v; });
        const s = { mode: c.mode, stored: servedV, initial: conv(c.initial, fromStored), flags: c.flags, fallbackVariant: c.configFallback ?? {}, context: g.evalContext(c.user) };
        ctx.nontrivial(Object.keys(c.served).some((k) => c.initial[k] || c.flags[k]));
        for (const [key, inline] of c.lookups) { const w = resolve(s, key, inline); ctx.cls('source ' + w.source); same(client.variant(key, copy(inline)), w.variant || {}, `variant(${show(key)}, ${show(inline)})`); }
        same(client.all(), resolveAll(s), 'all()');
      } },
  ],
};
