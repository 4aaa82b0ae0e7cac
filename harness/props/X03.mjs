import { scopedBundle } from '../lib/build.mjs';
import { clientPage, MemStorage, fromStored, toVariant, Clock } from '../lib/client.mjs';
import * as g from '../lib/genclient.mjs';
import { same, fail, show, deq } from '../lib/runner.mjs';
const copy = (x) => (x === undefined ? undefined : JSON.parse(JSON.stringify(x)));
const INST = [undefined, 'my-instance', 'other', 'a-flags', '$default_instance'];
const DEPS = ['client-abcdefgh', 'server-ijklmnop', 'xyz', 'client-abcdefg1', 'yz'];
const id = (fc) => fc.record({ instance: fc.constantFrom(...INST), key: fc.constantFrom(...DEPS), web: fc.boolean() });
const ident = (i) => JSON.stringify([i.instance || '$default_instance', i.key.slice(-6), i.web]);
const cfg = (i) => ({ instanceName: i.instance, fetchOnStart: true, pollOnStart: false, retryFetchOnFailure: false, automaticExposureTracking: false, ...(i.web ? { internalInstanceNameSuffix: 'web' } : {}) });
const flagOf = (key, v) => ({ key, variants: { on: { key: 'on', value: v } }, segments: [{ variant: 'on' }], metadata: { evaluationMode: 'local' } });
const garbage = (fc) => fc.oneof(
  fc.constantFrom('', 'null', '0', '[]', '"text"', 'true', '{', '{"flag-a":', 'undefined', '[1,2]', '{"flag-a":null}', '{"flag-a":5}', '{"flag-a":[]}', '{"flag-a":true,"flag-b":{"key":"on"}}', '{"flag-a":{"metadata":5}}', '{"flag-a":{"key":{"x":1}}}'),
  fc.string({ maxLength: 20 }), fc.json({ maxDepth: 2 }));
const SUFFIX = ['', '-flags', '-variants-options'];
export default {
  id: 'X03', level: 'exploration',
  rule: 'a case is non-trivial when two or more clients wrote something, or storage holds text which is not a valid entry, or storage failed',
  assumptions: ['two deployments are different when their last six characters differ (documented name of the entries)'],
  async setup() { return { bundle: await scopedBundle('browser') }; },
  parts: [
    { name: 'restart', what: 'several clients of different instances and deployments fetch, set tracking and restart over shared storage', runs: { quick: 700, thorough: 25000 },
      arb: (fc) => fc.array(fc.record({ who: id(fc), variants: g.mapOf(g.served().map((v) => ({ key: 'on', ...v }))), flags: g.mapOf(fc.constantFrom('x', 'y', 'z'), ['lf-1', 'lf-2', 'lf-3']), track: fc.constantFrom(undefined, true, false) }), { minLength: 2, maxLength: 6 }),
      async check(c, ctx, { bundle }) {
        const local = new MemStorage(), session = new MemStorage(), clock = new Clock();
        const model = new Map();
        for (const s of c) {
          const page = clientPage({ bundle, clock, local, session, vardata: () => ({ body: s.variants }), flags: () => ({ body: Object.entries(s.flags).map(([k, v]) => flagOf(k, v)) }) });
          const client = page.init(s.who.key, cfg(s.who));
          const before = model.get(ident(s.who)) || { variants: {}, flags: {}, track: undefined };
          same(client.all(), { ...before.variants, ...Object.fromEntries(Object.entries(before.flags).map(([k, v]) => [k, { key: 'on', value: v, metadata: { evaluationMode: 'local' } }])) }, `contents seen by a new client of ${ident(s.who)}`);
          if (s.track !== undefined) await client.setTracksAssignment(s.track);
          await client.start({ user_id: 'u' });
          const t = s.track === undefined ? before.track : (s.track ? 'track' : 'no-track');
          same(page.requests.find((r) => r.kind === 'vardata').headers['X-Amp-Exp-Track'], t, 'tracking preference in the request');
          model.set(ident(s.who), { variants: Object.fromEntries(Object.entries(s.variants).map(([k, v]) => [k, fromStored(copy(toVariant(v)))])), flags: s.flags, track: t });
        }
        ctx.nontrivial(model.size > 1); ctx.cls('revisited', model.size < c.length);
        for (const s of c) {
          const client = clientPage({ bundle, clock, local, session }).init(s.who.key, cfg(s.who)); const m = model.get(ident(s.who));
          same(client.all(), { ...m.variants, ...Object.fromEntries(Object.entries(m.flags).map(([k, v]) => [k, { key: 'on', value: v, metadata: { evaluationMode: 'local' } }])) }, `final contents of ${ident(s.who)}`);
        }
      } },
    { name: 'corrupt', what: 'arbitrary text under the entry names: construction, lookups, exposure and start never throw, intact neighbours are kept', runs: { quick: 3000, thorough: 100000 },
      expect: { valid: 0.1, queue: 0.3 },
      arb: (fc) => fc.record({ who: id(fc), variants: fc.oneof({ weight: 2, arbitrary: garbage(fc) }, { weight: 1, arbitrary: g.mapOf(g.stored()).map((m) => JSON.stringify(m)) }, { weight: 1, arbitrary: fc.tuple(g.mapOf(g.stored()), fc.dictionary(fc.constantFrom('bad-1', 'bad-2'), fc.constantFrom(null, 0, 7, true, false, '', []))).map(([a, b]) => JSON.stringify({ ...b, ...a })) }),
        flags: fc.oneof(fc.constant(undefined), fc.constantFrom('', 'null', '{', 'not json', '[]', '0', '"x"'), fc.array(fc.tuple(fc.constantFrom('flag-a', 'flag-q', 'q2', '0'), fc.constantFrom({}, [], 5, 'x', null, { key: 'q2' }, { key: 'q2', segments: null, variants: {} }, { segments: [], variants: {} }, { key: 'q2', segments: [], variants: 5 }, { key: 'q2', segments: [], variants: null }, { key: 'q2', segments: [{ variant: 'on' }], variants: null })), { maxLength: 3 }).chain((l) => fc.boolean().map((ok) => JSON.stringify({ ...Object.fromEntries(l), ...(ok ? { 'flag-ok': flagOf('flag-ok', 'kept') } : {}) })))),
        mixed: fc.option(fc.array(fc.constantFrom(null, 5, 'x', [], {}, { eventType: 5 }, 'EVENT'), { maxLength: 4 }), { nil: undefined }), options: fc.oneof(fc.constant(undefined), fc.constantFrom('', 'null', '{', 'not json', '5')), sent: fc.option(garbage(fc), { nil: undefined, freq: 3 }), unsent: fc.option(garbage(fc), { nil: undefined, freq: 3 }), provider: fc.option(garbage(fc), { nil: undefined, freq: 3 }) }),
      async check(c, ctx, { bundle }) {
        const local = new MemStorage(), session = new MemStorage();
        const st = c.who.web ? session : local; const inst = c.who.instance || '$default_instance';
        const ns = `amp-exp-${inst}${c.who.web ? '-web' : ''}-${c.who.key.slice(-6)}`;
        st.setItem(ns, c.variants); if (c.flags !== undefined) st.setItem(ns + '-flags', c.flags); if (c.options !== undefined) st.setItem(ns + '-variants-options', c.options);
        if (c.sent !== undefined) session.setItem(`EXP_sent_v3_${inst}`, c.sent);
        const EVENT = (i) => ({ eventType: '$exposure', eventProperties: { flag_key: `kept-${i}` } }); const kept = c.mixed ? c.mixed.map((e, i) => (e === 'EVENT' ? EVENT(i) : null)).filter(Boolean) : [];
        if (c.mixed) { local.setItem(`EXP_unsent_${inst}`, JSON.stringify(c.mixed.map((e, i) => (e === 'EVENT' ? EVENT(i) : e)))); ctx.cls('queue'); if (kept.length) ctx.cls('keptEvent'); } else if (c.unsent !== undefined) { local.setItem(`EXP_unsent_${inst}`, c.unsent); ctx.cls('queue'); }
        if (c.provider !== undefined) { local.setItem(`EXP_${c.who.key.slice(0, 10)}_DEFAULT_USER_PROVIDER`, c.provider); session.setItem(`EXP_${c.who.key.slice(0, 10)}_DEFAULT_USER_PROVIDER`, c.provider); }
        ctx.nontrivial();
        let step = 'initialize'; const got = [];
        try {
          const page = clientPage({ bundle, local, session, vardata: () => ({ body: { 'flag-z': { key: 'on' } } }), flags: () => ({ body: [] }) });
          const client = page.init(c.who.key, { ...cfg(c.who), automaticExposureTracking: true });
          step = 'addPlugin'; client.addPlugin({ type: 'integration', getUser: () => ({}), track: (e) => { got.push(e); return true; } });
          let parsed; try { parsed = JSON.parse(c.variants); } catch { parsed = undefined; }
          same(got, kept, 'events of the queue, delivered when an integration is added');
          step = 'all'; const all = client.all();
          if (c.flags && c.flags.includes('flag-ok')) { ctx.cls('keptFlag'); same(all['flag-ok'], { key: 'on', value: 'kept', metadata: { evaluationMode: 'local' } }, 'flag stored beside malformed ones'); delete all['flag-ok']; }
          if (parsed && typeof parsed === 'object' && !Array.isArray(parsed)) {
            for (const [k, v] of Object.entries(parsed)) {
              const ok = typeof v === 'string' ? v !== '' : v && typeof v === 'object' && !Array.isArray(v) && (v.metadata === undefined || (v.metadata && typeof v.metadata === 'object'));
              if (!ok || k === '__proto__') continue;
              ctx.cls('valid');
              same(all[k], fromStored(copy(v)), `stored variant ${show(k)}`);
            }
          } else if (!Array.isArray(parsed)) same(all, {}, 'all() over unreadable contents');
          step = 'variant'; for (const k of ['flag-a', 'flag-b', 'bad-1', 'toString']) client.variant(k);
          step = 'exposure'; client.exposure('flag-a');
          step = 'start'; await client.start({ user_id: 'u' });
          step = 'variant after start'; same(client.variant('flag-z'), { key: 'on' }, 'variant fetched over corrupt storage');
          step = 'clear'; client.clear(); same(client.all(), {}, 'all() after clear');
        } catch (e) { if (e.name === 'Violation') throw e; fail(`${step} threw ${e.stack}`); }
      } },
    { name: 'failing', what: 'storage which throws on read and/or write (quota, security errors): nothing throws, memory still serves', runs: { quick: 1500, thorough: 50000 },
      arb: (fc) => fc.record({ who: id(fc), read: fc.constantFrom('never', 'always', 'amp', 'EXP'), write: fc.constantFrom('never', 'always', 'amp', 'EXP'), from: fc.nat(8), variants: g.mapOf(g.served().map((v) => ({ key: 'on', ...v }))), deny: fc.constantFrom('none', 'none', 'none', 'none', 'undefined', 'throws') }),
      async check(c, ctx, { bundle }) {
        const local = new MemStorage(), session = new MemStorage(); let n = 0;
        const f = (how) => (k) => how !== 'never' && n++ >= c.from && (how === 'always' || k.startsWith(how));
        for (const s of [local, session]) { s.failGet = f(c.read); s.failSet = f(c.write); }
        ctx.nontrivial(c.deny !== 'none' || c.read !== 'never' || c.write !== 'never'); ctx.cls('denied', c.deny !== 'none');
        let step = 'initialize'; const got = [];
        try {
          const page = clientPage({ bundle, local, session, deny: c.deny, vardata: () => ({ body: c.variants }), flags: () => ({ body: [flagOf('lf', 'x')] }) });
          const client = page.init(c.who.key, { ...cfg(c.who), automaticExposureTracking: true, exposureTrackingProvider: { track: (e) => got.push(e) } });
          step = 'variant before'; client.variant('flag-a'); step = 'all before'; client.all();
          step = 'start'; await client.start({ user_id: 'u' });
          step = 'lookup';
          for (const k of Object.keys(c.variants)) same(client.variant(k), toVariant(c.variants[k]), `variant(${k}) with failing storage`);
          same(client.variant('lf'), { key: 'on', value: 'x', metadata: { evaluationMode: 'local' } }, 'local flag with failing storage');
          step = 'exposure'; client.exposure('flag-a');
          step = 'clear'; client.clear();
          same(Object.keys(client.all()), ['lf'], 'all() after clear with failing storage');
        } catch (e) { if (e.name === 'Violation') throw e; fail(`${step} threw ${e.stack}`); }
      } },
  ],
};
