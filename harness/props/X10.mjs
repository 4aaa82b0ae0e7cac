import { scopedBundle } from '../lib/build.mjs';
import { clientPage, Clock, settle } from '../lib/client.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const NAMES = [undefined, null, '', '$default_instance', 'my-instance', 'a.b', 'constructor', 'other'];
const KEYS = ['key-1', 'key-2', 'client-abcdef', '', 'web'];
const nullish = (fc, ...vals) => fc.constantFrom(undefined, null, ...vals, ...vals);
export default {
  id: 'X10', level: 'exploration',
  rule: 'a case is non-trivial when a pair is initialized at least twice, or some configuration field is left unset or null while another is given',
  assumptions: ['deployment keys contain no dot'],
  async setup() { return { bundle: await scopedBundle('browser') }; },
  parts: [
    { name: 'instances', what: 'sequences of initializations through both factories vs a map keyed by (name, key, internal suffix)', sync: true, runs: { quick: 1500, thorough: 40000 }, expect: { again: 0.4 },
      arb: (fc) => fc.array(fc.record({ name: fc.constantFrom(...NAMES), key: fc.constantFrom(...KEYS), web: fc.boolean(), analytics: fc.boolean(), noConfig: fc.boolean(), user: fc.constantFrom('u1', 'u2', 'u3') }), { minLength: 2, maxLength: 14, size: 'max' }),
      check(c, ctx, { bundle }) {
        const page = clientPage({ bundle }); const seen = new Map(); let again = 0;
        for (const o of c) {
          const noConfig = o.noConfig && !o.name && !o.web;
          const cfg = noConfig ? undefined : { instanceName: o.name, fetchOnStart: false, pollOnStart: false, ...(o.web ? { internalInstanceNameSuffix: 'web' } : {}) };
          const client = o.analytics ? page.initAnalytics(o.key, cfg) : page.init(o.key, cfg);
          const id = JSON.stringify([o.name || '$default_instance', o.key, o.web]);
          if (seen.has(id)) { again++; if (seen.get(id).client !== client) fail(`initializing ${id} again gave another client`); same(client.getUser() ?? null, seen.get(id).user, `user of ${id} when initialized again`); }
          else { for (const [k, v] of seen) if (v.client === client) fail(`initializing ${id} gave the client of ${k}`); same(client.getUser() ?? null, null, `user of the new client ${id}`); }
          client.setUser({ user_id: o.user }); seen.set(id, { client, user: { user_id: o.user } });
          for (const [k, v] of seen) same(v.client.getUser(), v.user, `user of ${k}`);
        }
        ctx.nontrivial(again > 0); ctx.cls('again', again > 0);
      } },
    { name: 'defaults', what: 'observable behaviour of every default and of endpoint selection', runs: { quick: 1500, thorough: 40000 },
      arb: (fc) => fc.record({ serverZone: nullish(fc, 'US', 'EU', 'eu', 'Eu', 'us'), serverUrl: nullish(fc, 'https://vardata.example'), flagsServerUrl: nullish(fc, 'https://flags.example'), fetchOnStart: nullish(fc, true, false), pollOnStart: nullish(fc, true, false), retryFetchOnFailure: nullish(fc, true, false), automaticExposureTracking: nullish(fc, true, false), fetchTimeoutMillis: nullish(fc, 700, 12000), flagConfigPollingIntervalMillis: nullish(fc, 30000, 100000), source: nullish(fc, 'localStorage', 'initialVariants'), fallbackVariant: nullish(fc, { key: 'fb', value: 'fb' }), throwOnError: nullish(fc, true, false), debug: nullish(fc, false), initialVariants: nullish(fc, { i: { key: 'on', value: 'on' } }), hang: fc.boolean(), omit: fc.boolean() }),
      async check(c, ctx, { bundle }) {
        const { hang, omit, ...raw } = c; const tracked = [];
        const cfg = { ...raw, exposureTrackingProvider: { track: (e) => tracked.push(e) } };
        if (omit) for (const k of Object.keys(cfg)) if (cfg[k] === undefined) delete cfg[k];
        const snapshot = JSON.stringify(cfg);
        const page = clientPage({ bundle, vardata: () => (hang ? 'hang' : { status: 503, body: {} }), flags: () => ({ body: [{ key: 'lf', variants: { on: { key: 'on', value: 'on' } }, segments: [{ variant: 'on' }], metadata: { evaluationMode: 'local' } }] }) });
        const d = (v, dflt) => (v === undefined || v === null ? dflt : v);
        const client = page.init('some-deployment', cfg); const t0 = page.clock.now;
        same(JSON.stringify(cfg), snapshot, 'caller configuration after initialize');
        let st = 'pending', at; client.start({ user_id: 'u' }).then(() => { st = 'ok'; at = page.clock.now; }, () => { st = 'rejected'; at = page.clock.now; });
        await page.clock.advance(20000);
        const eu = String(d(c.serverZone, 'US')).toLowerCase() === 'eu';
        const vd = page.requests.filter((r) => r.kind === 'vardata'), fl = page.requests.filter((r) => r.kind === 'flags');
        for (const r of vd) same(r.origin, d(c.serverUrl, eu ? 'https://api.lab.eu.amplitude.com' : 'https://api.lab.amplitude.com'), 'variant endpoint');
        for (const r of fl) same(r.origin, d(c.flagsServerUrl, eu ? 'https://flag.lab.eu.amplitude.com' : 'https://flag.lab.amplitude.com'), 'flag endpoint');
        const fetchOn = d(c.fetchOnStart, true), timeout = d(c.fetchTimeoutMillis, 10000), thr = d(c.throwOnError, false), poll = d(c.pollOnStart, true);
        const failAt = hang ? timeout : 0;
        same(st, fetchOn && thr ? 'rejected' : 'ok', 'outcome of start()'); same(at - t0, fetchOn ? failAt : 0, 'time at which start() settled');
        same(vd.length > 0, fetchOn, 'fetch on start');
        const retried = vd.length > 1; if (fetchOn) same(retried, d(c.retryFetchOnFailure, true), 'retry after failure');
        if (retried) same(vd[1].at - t0, failAt + 500, 'time of the first retry');
        const polls = st === 'ok' && poll;
        const before = page.requests.filter((r) => r.kind === 'flags').length;
        await page.clock.advance(1_000_000);
        const times = page.requests.filter((r) => r.kind === 'flags').slice(before).map((r) => r.at - t0);
        if (!polls) same(times, [], 'polls without polling'); else { const I = Math.max(60000, d(c.flagConfigPollingIntervalMillis, 300000)); const first = (fetchOn ? failAt : 0) + I; const want = []; for (let x = first; x <= 1_020_000; x += I) if (x > 20000) want.push(x); same(times, want, 'poll times'); }
        const n = tracked.length; const v = client.variant('lf'); same(v.key, 'on', 'local flag'); same(tracked.length - n, d(c.automaticExposureTracking, true) ? 1 : 0, 'automatic exposure');
        same(client.variant('none'), d(c.fallbackVariant, {}), 'configured fallback'); same(client.variant('i'), d(c.initialVariants, {}).i || d(c.fallbackVariant, {}), 'initial variant');
        ctx.nontrivial(Object.values(raw).some((x) => x === undefined || x === null));
        client.stop();
      } },
  ],
};
