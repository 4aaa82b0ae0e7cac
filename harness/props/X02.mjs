import { scopedBundle } from '../lib/build.mjs';
import { clientPage, MemStorage, toVariant, fromStored, Clock, settle } from '../lib/client.mjs';
import * as g from '../lib/genclient.mjs';
import { decodeUser, decodeJson } from '../lib/world.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const copy = (x) => (x === undefined ? undefined : JSON.parse(JSON.stringify(x)));
const KEYS = ['flag-a', 'flag-b', 'flag-c', 'flag-d', 'constructor'];
const variants = (fc, keys = KEYS) => g.mapOf(g.served(), keys);
const failure = (fc) => fc.oneof(
  fc.record({ kind: fc.constant('status'), status: fc.constantFrom(400, 401, 404, 413, 429, 500, 503, 301, 204) }),
  fc.record({ kind: fc.constant('net') }), fc.record({ kind: fc.constant('hang') }), fc.record({ kind: fc.constant('badJson'), text: fc.constantFrom('', 'not json', '{"a":', 'null', '<html>') }));
const outcome = (fc) => fc.oneof({ weight: 3, arbitrary: variants(fc).map((v) => ({ kind: 'ok', variants: v })) }, { weight: 2, arbitrary: failure(fc) });
const fetchOp = (fc) => fc.record({ op: fc.constantFrom('fetch', 'fetch', 'fetch', 'start'), user: fc.constantFrom(undefined, { user_id: 'u1' }, { device_id: 'd' }), keys: fc.option(fc.oneof({ weight: 5, arbitrary: fc.subarray(KEYS) }, { weight: 1, arbitrary: fc.array(fc.constantFrom(...KEYS), { maxLength: 4 }) }), { nil: undefined, freq: 2 }), out: outcome(fc) });
const op = (fc) => fc.oneof({ weight: 7, arbitrary: fetchOp(fc) }, { weight: 1, arbitrary: fc.constant({ op: 'clear' }) }, { weight: 2, arbitrary: fc.constant({ op: 'restart' }) }, { weight: 1, arbitrary: fc.constantFrom({ op: 'full' }, { op: 'space' }) }, { weight: 1, arbitrary: fc.boolean().map((on) => ({ op: 'track', on })) });
export const answer = (o, keys) => {
  if (o.kind === 'ok') { const v = keys && keys.length ? Object.fromEntries(Object.entries(o.variants).filter(([k]) => keys.includes(k))) : o.variants; return { body: v }; }
  if (o.kind === 'status') return { status: o.status, body: {} };
  if (o.kind === 'net') return 'error'; if (o.kind === 'hang') return 'hang';
  return { body: o.text };
};
const apply = (m, served, keys) => {
  const out = new Map(keys && keys.length ? m : []);
  if (keys) for (const k of keys) out.delete(k);
  for (const [k, v] of Object.entries(served)) out.set(k, toVariant(v));
  return out;
};
const obj = (m) => Object.fromEntries(m);
export default {
  id: 'X02', level: 'exploration',
  rule: 'a case is non-trivial when its history has at least two successful fetches and one of: partial fetch, failure, clear, restart',
  assumptions: ['a partial fetch is answered with a subset of the requested keys', 'variants served without a key receive their value as key once persisted (documented storage format)'],
  async setup() { return { bundle: await scopedBundle('browser') }; },
  parts: [
    { name: 'histories', what: 'histories of full/partial/failed fetches, clears, restarts and full storage vs a map model', runs: { quick: 1800, thorough: 60000 },
      expect: { partial: 0.5, failed: 0.5, restart: 0.3 },
      arb: (fc) => fc.record({ throwOnError: fc.boolean(), mode: fc.constantFrom('localStorage', 'initialVariants'), timeout: fc.constantFrom(undefined, 500), ops: fc.array(op(fc), { minLength: 2, maxLength: 12, size: 'max' }) }),
      async check(c, ctx, { bundle }) {
        const local = new MemStorage(); const clock = new Clock();
        let current; let full = false; let started = false;
        local.failSet = (k) => full && k.startsWith('amp-exp');
        let track, diskTrack, sent;
        const boot = () => { started = false; const page = clientPage({ bundle, clock, local, vardata: (r) => { sent = r.headers; return answer(current.out, current.op === 'start' ? undefined : current.keys); }, flags: () => ({ body: [] }) });
          return page.init('some-deployment', { retryFetchOnFailure: false, throwOnError: c.throwOnError, pollOnStart: false, source: c.mode, fetchTimeoutMillis: c.timeout, automaticExposureTracking: false }); };
        let client = boot();
        let model = new Map(), disk = new Map(), ok = 0, other = 0;
        for (const o of c.ops) {
          if (o.op === 'full') full = true; else if (o.op === 'space') full = false;
          else if (o.op === 'restart') { client = boot(); model = new Map([...disk].map(([k, v]) => [k, fromStored(copy(v))])); track = diskTrack; other++; ctx.cls('restart'); }
          else if (o.op === 'track') { if (full) continue; await client.setTracksAssignment(o.on); track = diskTrack = o.on; ctx.cls('tracking preference'); }
          else if (o.op === 'clear') { let e; try { client.clear(); } catch (x) { e = x; } if (e) fail(`clear() threw ${e.stack}`); model = new Map(); if (!full) disk = new Map(); other++; }
          else {
            current = o; let state = 'pending', val;
            if (o.op === 'start' && started) continue;
            const p = o.op === 'start' ? client.start(o.user) : client.fetch(o.user, o.keys ? { flagKeys: [...o.keys] } : undefined);
            if (o.op === 'start') started = true;
            p.then((v) => { state = 'resolved'; val = v; }, (e) => { state = 'rejected'; val = e; });
            sent = undefined; await clock.advance(c.timeout || 10000);
            if (!sent) fail(`${o.op} made no request`);
            same(sent['X-Amp-Exp-Track'], track === undefined ? undefined : track ? 'track' : 'no-track', `tracking preference sent by ${show(o)}`);
            same(sent['X-Amp-Exp-Flag-Keys'] === undefined ? undefined : decodeJson(sent['X-Amp-Exp-Flag-Keys']), o.op === 'start' ? undefined : o.keys, `flag keys sent by ${show(o)}`);
            if (state === 'pending') fail(`${o.op} did not settle within its timeout, outcome ${show(o.out)}`);
            const success = o.out.kind === 'ok' || (o.out.kind === 'badJson' && false);
            same(state, success || !c.throwOnError ? 'resolved' : 'rejected', `${o.op} with outcome ${show(o.out)} and throwOnError=${c.throwOnError}`);
            if (success) { const keys = o.op === 'start' ? undefined : o.keys; model = apply(model, answer(o.out, keys).body, keys); if (!full) disk = new Map(model); ok++; if (keys && keys.length) { other++; ctx.cls('partial'); } }
            else { other++; ctx.cls('failed'); }
            ctx.cls('outcome ' + o.out.kind);
          }
          same(client.all(), obj(model), `all() after ${show(o)}`);
          for (const k of KEYS) same(client.variant(k), model.get(k) || {}, `variant(${k}) after ${show(o)}`);
        }
        ctx.nontrivial(ok >= 2 && other >= 1);
      } },
    { name: 'overlap', what: 'fetches in flight at the same time: every response is applied when it arrives, late failures change nothing', runs: { quick: 1500, thorough: 40000 },
      arb: (fc) => fc.array(fc.record({ gap: fc.constantFrom(0, 0, 10, 300), delay: fc.constantFrom(0, 5, 20, 200, 400, 9000), keys: fc.option(fc.oneof({ weight: 5, arbitrary: fc.subarray(KEYS) }, { weight: 1, arbitrary: fc.array(fc.constantFrom(...KEYS), { maxLength: 4 }) }), { nil: undefined, freq: 2 }), out: outcome(fc) }), { minLength: 2, maxLength: 6 }),
      async check(c, ctx, { bundle }) {
        const clock = new Clock(); const local = new MemStorage();
        let i = 0; const order = []; 
        const page = clientPage({ bundle, clock, local, vardata: () => { const o = c[i]; const a = answer(o.out, o.keys); const r = typeof a === 'string' ? (a === 'error' ? { kind: 'error', delay: o.delay } : a) : { ...a, delay: o.delay }; if (o.out.kind === 'ok') order.push([clock.now + o.delay, order.length, o]); return r; } });
        const client = page.init('some-deployment', { retryFetchOnFailure: false, pollOnStart: false, automaticExposureTracking: false });
        for (; i < c.length; i++) { await clock.advance(c[i].gap); void client.fetch({ user_id: 'u' }, c[i].keys ? { flagKeys: c[i].keys } : undefined).catch(() => {}); await settle(); }
        await clock.advance(12000);
        let model = new Map();
        order.sort((a, b) => a[0] - b[0] || a[1] - b[1]);
        for (const [, , o] of order) model = apply(model, answer(o.out, o.keys).body, o.keys);
        ctx.nontrivial(order.length >= 2); ctx.cls('reordered', order.some((x, n) => n && x[1] < order[n - 1][1]));
        same(client.all(), obj(model), 'all() after all responses arrived');
        const again = clientPage({ bundle, clock, local }).init('some-deployment', { automaticExposureTracking: false });
        same(again.all(), Object.fromEntries([...model].map(([k, v]) => [k, fromStored(copy(v))])), 'all() after a restart');
      } },
    { name: 'retries', what: 'background retries of full and partial fetches: a late success has exactly the effect of the fetch it belongs to', runs: { quick: 900, thorough: 30000 }, expect: { lateSuccess: 0.2, latePartial: 0.1 },
      arb: (fc) => fc.array(fc.record({ wait: fc.constantFrom(0, 40, 300, 700, 2500, 9000), keys: fc.option(fc.subarray(KEYS), { nil: undefined, freq: 3 }), outs: fc.array(fc.record({ delay: fc.constantFrom(0, 30, 90, 400), out: fc.oneof({ weight: 2, arbitrary: variants(fc).map((v) => ({ kind: 'ok', variants: v })) }, { weight: 3, arbitrary: fc.constantFrom({ kind: 'net' }, { kind: 'status', status: 500 }, { kind: 'status', status: 429 }, { kind: 'hang' }) }, { weight: 1, arbitrary: fc.constant({ kind: 'status', status: 400 }) }) }), { minLength: 1, maxLength: 4 }) }), { minLength: 1, maxLength: 5 }),
      async check(c, ctx, { bundle }) {
        const clock = new Clock(); const local = new MemStorage(); const tries = c.map(() => 0); let model = new Map(); let late = 0, latePart = 0;
        let bad; const page = clientPage({ bundle, clock, local, vardata: (r) => {
          const i = Number(decodeUser(r.headers).user_id.slice(1)); const f = c[i]; const n = tries[i]++; const o = f.outs[Math.min(n, f.outs.length - 1)];
          const sent = r.headers['X-Amp-Exp-Flag-Keys'] ? decodeJson(r.headers['X-Amp-Exp-Flag-Keys']) : [];
          if (!bad && [...sent].sort().join() !== [...(f.keys || [])].sort().join()) bad = `flag keys requested by attempt ${n + 1} of fetch ${i}: got ${show(sent)}, expected ${show(f.keys)}`;
          const a = answer(o.out, f.keys); if (a === 'hang') return a; if (a === 'error') return { kind: 'error', delay: o.delay };
          // the timer that ends this attempt runs at now + delay: record the effect just when it does
          if (o.out.kind === 'ok') { if (n) { late++; if (f.keys && f.keys.length) latePart++; } const upd = () => { model = apply(model, a.body, f.keys); }; if (o.delay > 0) clock.at(clock.now + o.delay, upd); else upd(); }
          return { ...a, delay: o.delay };
        } });
        const client = page.init('some-deployment', { pollOnStart: false, fetchTimeoutMillis: 1000, automaticExposureTracking: false });
        for (let i = 0; i < c.length; i++) { void client.fetch({ user_id: 'u' + i }, c[i].keys ? { flagKeys: [...c[i].keys] } : undefined).catch(() => {}); await clock.advance(c[i].wait); await settle(); if (bad) fail(bad); same(client.all(), obj(model), `all() ${c[i].wait} ms after fetch ${i}`); }
        await clock.advance(120000); if (bad) fail(bad); same(client.all(), obj(model), 'all() after the retries ended');
        same(clientPage({ bundle, clock, local }).init('some-deployment', { automaticExposureTracking: false }).all(), Object.fromEntries([...model].map(([k, v]) => [k, fromStored(copy(v))])), 'all() after a restart');
        ctx.nontrivial(late > 0); ctx.cls('lateSuccess', late > 0); ctx.cls('latePartial', latePart > 0);
      } },
  ],
};
