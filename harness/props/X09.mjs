import { scopedBundle } from '../lib/build.mjs';
import { clientPage, MemStorage, Clock } from '../lib/client.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const FK = ['fa', 'fb', 'fc', 'fd'];
const mode = (v) => (v === 'j' || v === '3' ? 'remote' : 'local');
const flag = (k, v) => ({ key: k, variants: { [`on-${v}`]: { key: 'on', value: v } }, segments: [{ variant: `on-${v}` }], metadata: { evaluationMode: mode(v) } });
const set = (fc, vs) => fc.subarray(FK).chain((ks) => fc.tuple(...ks.map(() => fc.constantFrom(...vs))).map((v) => Object.fromEntries(ks.map((k, i) => [k, v[i]]))));
const outcome = (fc) => fc.oneof({ weight: 5, arbitrary: set(fc, ['1', '2', '3']).map((flags) => ({ kind: 'ok', flags })) }, { weight: 1, arbitrary: fc.constantFrom({ kind: 'error' }, { kind: 'hang' }, { kind: 'text', text: '{' }, { kind: 'text', text: 'null' }, { kind: 'text', text: '<html>' }) }, { weight: 1, arbitrary: fc.constantFrom(400, 401, 404, 429, 500, 503, 304).map((status) => ({ kind: 'status', status })) });
const opArb = (fc) => fc.oneof(
  { weight: 4, arbitrary: fc.constant({ op: 'start' }) }, { weight: 2, arbitrary: fc.constant({ op: 'stop' }) }, { weight: 1, arbitrary: fc.constant({ op: 'restart' }) },
  { weight: 7, arbitrary: fc.record({ op: fc.constant('advance'), ms: fc.constantFrom(0, 10, 700, 9000, 11000, 30000, 60000, 61000, 300000, 301000, 700000) }) });
export default {
  id: 'X09', level: 'exploration',
  rule: 'a case is non-trivial when at least two flag responses were applied or one failed, or stop fell between requests',
  assumptions: ['with throwOnError, polling after a failed start is undefined'],
  async setup() { return { bundle: await scopedBundle('browser') }; },
  parts: [
    { name: 'histories', what: 'start/stop/poll/failure/restart histories: flags in use vs last success plus bundled ones, and the request schedule', runs: { quick: 1600, thorough: 50000 },
      expect: { applied2: 0.4, failed: 0.4, polled: 0.4 },
      arb: (fc) => fc.record({ interval: fc.constantFrom(undefined, null, 1, 1000, 59999, 60000, 90000, 400000), pollOnStart: fc.constantFrom(true, true, true, false, undefined), fetchOnStart: fc.boolean(), slowFetch: fc.constantFrom(0, 0, 300, 'hang'), initials: fc.array(fc.option(set(fc, ['i', 'j']), { nil: undefined }), { minLength: 1, maxLength: 3 }), delay: fc.constantFrom(0, 0, 5, 400), outs: fc.array(outcome(fc), { minLength: 1, maxLength: 8, size: 'max' }), ops: fc.array(opArb(fc), { minLength: 3, maxLength: 16, size: 'max' }) }),
      async check(c, ctx, { bundle }) {
        const local = new MemStorage(), clock = new Clock(); let n = 0;
        let model = {}, disk = {}, applied = 0, failed = 0;
        const interval = Math.max(60000, c.interval ?? 300000);
        let page, client, running, polling, initial, gen = 0; const windows = [];
        const respond = (g) => () => {
          const o = c.outs[n++ % c.outs.length];
          const land = () => { if (g !== gen) return; if (o.kind === 'ok') { model = o.flags; disk = o.flags; applied++; } else failed++; };
          if (o.kind === 'hang') { failed++; return 'hang'; }
          if (c.delay) clock.at(clock.now + c.delay, land); else land();
          if (o.kind === 'ok') return { body: Object.entries(o.flags).map(([k, v]) => flag(k, v)), delay: c.delay };
          if (o.kind === 'error') return { kind: 'error', delay: c.delay };
          if (o.kind === 'text') return { body: o.text, delay: c.delay };
          return { status: o.status, body: [], delay: c.delay };
        };
        const reqs = [];
        const boot = () => {
          const g = ++gen; clock.timers.clear(); initial = c.initials[(g - 1) % c.initials.length];
          page = clientPage({ bundle, clock, local, flags: (r) => { reqs.push({ at: r.at, running: running > 0, state: polling }); return respond(g)(); }, vardata: () => (c.slowFetch === 'hang' ? 'hang' : { body: {}, delay: c.slowFetch }) });
          client = page.init('some-deployment', { fetchOnStart: c.fetchOnStart, pollOnStart: c.pollOnStart, flagConfigPollingIntervalMillis: c.interval, initialFlags: initial && JSON.stringify(Object.entries(initial).map(([k, v]) => flag(k, v))), automaticExposureTracking: false, retryFetchOnFailure: false });
          running = 0; polling = null; model = { ...disk };
        };
        const poll = c.pollOnStart !== false;
        boot();
        let starts = 0, stoppedMid = false; const rejected = [];
        const look = (what) => {
          const eff = { ...(initial || {}), ...model };
          for (const k of FK) same(client.variant(k), eff[k] ? { key: 'on', value: eff[k], metadata: { evaluationMode: mode(eff[k]) } } : {}, `${what}: variant(${k}) (last applied ${show(model)}, bundled ${show(initial)})`);
          same(Object.keys(client.all()).sort(), Object.keys(eff).filter((k) => mode(eff[k]) === 'local').sort(), `${what}: all()`);
        };
        look('before start');
        for (const o of c.ops) {
          const k = reqs.length;
          if (o.op === 'start') {
            const already = running > 0; const g = gen; const token = {};
            if (!already) { running = 1; starts++; }
            let err; const p = client.start({ user_id: 'u' });
            p.then(() => { if (!already && g === gen && running && poll && !polling) polling = { from: clock.now }; }, (e) => { err = e; rejected.push(`${e && e.message}`); });
            if (already) { await clock.advance(0); if (err) fail('start() rejected'); same(reqs.length - k <= 1, true, 'flag requests caused by starting twice'); }
            else { await clock.advance(0); if (reqs.length === k) fail('start() made no flag request'); }
          } else if (o.op === 'stop') { client.stop(); if (running && !polling) stoppedMid = true; running = 0; polling = null; await clock.advance(0); same(reqs.length, k, 'flag requests caused by stop()'); }
          else if (o.op === 'restart') { boot(); }
          else {
            const t = clock.now; const before = polling; await clock.advance(o.ms); const now = reqs.slice(k).map((r) => r.at);
            if (!running) same(now, [], `flag requests while stopped (${o.ms} ms)`);
            else if (running && polling) {
              const p = polling.from;
              // exactly one request per elapsed interval since polling began, and at most one at its beginning
              const due = []; for (let x = p + interval; x <= t + o.ms; x += interval) if (x > t) due.push(x);
              const seen = now.filter((x) => x > p);
              same(seen, due, `poll times relative to ${p} with interval ${interval} (window ${t}..${t + o.ms})`);
              const atStart = now.filter((x) => x === p && x > t).length; if (atStart > 1) fail(`${atStart} flag requests when polling begins`);
              if (due.length) ctx.cls('polled');
            } else if (!poll) same(now, [], 'flag requests with polling disabled');
          }
          await clock.advance(0);
          look(`after ${show(o)}`);
        }
        client.stop(); await clock.advance(12000); const k = reqs.length; await clock.advance(2_000_000); same(reqs.length, k, 'flag requests after the final stop');
        if (!poll) same(reqs.length, starts, 'flag requests in total with polling disabled');
        same(rejected, [], 'errors with which start() rejected although throwOnError is off'); boot(); look('after a final restart');
        ctx.nontrivial(applied >= 2 || failed > 0); ctx.cls('applied2', applied >= 2); ctx.cls('failed', failed > 0); ctx.cls('stopped while starting', stoppedMid);
      } },
    { name: 'errors', what: 'start() rejects exactly if throwOnError is on and the flags or variants request failed; what arrived is in use', runs: { quick: 600, thorough: 10000 },
      arb: (fc) => { const o = fc.constantFrom('ok', 'ok', 'error', 'status', 'hang', 'text'); return fc.record({ throwOnError: fc.constantFrom(true, false, undefined), fetchOnStart: fc.constantFrom(true, true, false, undefined), flags: o, vardata: o, flagsDelay: fc.constantFrom(0, 5, 400), fetchDelay: fc.constantFrom(0, 5, 400), retry: fc.boolean() }); },
      async check(c, ctx, { bundle }) {
        const clock = new Clock(); let tries = 0;
        const reply = (o, body, delay) => (o === 'ok' ? { body, delay } : o === 'error' ? { kind: 'error', delay } : o === 'status' ? { status: 404, body: 'x', delay } : o === 'text' ? { body: '{', delay } : 'hang');
        const page = clientPage({ bundle, clock, local: new MemStorage(), flags: () => (tries++ ? 'hang' : reply(c.flags, [flag('fa', '1')], c.flagsDelay)), vardata: () => reply(c.vardata, { va: { key: 'on', value: 'x' } }, c.fetchDelay) });
        const client = page.init('some-deployment', { throwOnError: c.throwOnError, fetchOnStart: c.fetchOnStart, retryFetchOnFailure: c.retry, automaticExposureTracking: false });
        let state = 'pending'; client.start({ user_id: 'u' }).then(() => { state = 'resolved'; }, () => { state = 'rejected'; });
        await clock.advance(12000);
        const failed = c.flags !== 'ok' || (c.fetchOnStart !== false && c.vardata !== 'ok');
        same(state, failed && c.throwOnError ? 'rejected' : 'resolved', `start() with flags request ${c.flags} and variants request ${c.vardata}`);
        same(client.variant('fa').value, c.flags === 'ok' ? '1' : undefined, 'flag which arrived'); same(client.variant('va').value, c.fetchOnStart !== false && c.vardata === 'ok' ? 'x' : undefined, 'variant which arrived');
        const k = tries; await clock.advance(310000); if (state === 'resolved' && tries === k) fail('flags are not polled after the start');
        client.stop(); ctx.nontrivial(failed);
      } },
  ],
};
