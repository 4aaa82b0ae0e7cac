import { scopedBundle } from '../lib/build.mjs';
import { clientPage, Clock, settle } from '../lib/client.mjs';
import { decodeUser, decodeJson } from '../lib/world.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const ATTEMPTS = 8, MIN = 500, MAX = 10000, SCALAR = 1.5, RETRY_TIMEOUT = 10000;
const retryable = (o) => o.kind === 'net' || o.kind === 'hang' || o.kind === 'late' || o.kind === 'badJson' || (o.kind === 'status' && (o.status < 400 || o.status >= 500 || o.status === 429));
/** Discrete event reference: predicts every request (time, user, keys) and the stored result. */
function simulate(c) {
  let now = 0, seq = 0, n = 0; const q = []; const at = (t, f) => q.push({ t, s: seq++, f });
  const requests = [], settled = []; let stored = null, chain = { cancelled: true };
  const timeout = c.timeout ?? 10000;
  const request = (user, keys, limit, done) => {
    const o = c.outcomes[n % c.outcomes.length]; const id = n++;
    requests.push({ at: now, user, keys });
    const lag = o.kind === 'hang' ? Infinity : o.delay;
    if (lag < limit) at(now + lag, () => done(o.kind === 'ok' ? null : o, id)); else at(now + limit, () => done({ kind: 'late' }, id));
  };
  const attempt = (ch, call, i, delay) => {
    if (ch.cancelled) return;
    at(now + delay, () => { if (ch.cancelled) return; request(call.user, call.keys, RETRY_TIMEOUT, (err, id) => { if (!err) { stored = { id, keys: call.keys, prev: stored }; return; } if (i + 1 < ATTEMPTS) attempt(ch, call, i + 1, Math.min(delay * SCALAR, MAX)); }); });
  };
  c.calls.forEach((call, k) => at(call.at + k / 1024, () => {
    if (c.retry) chain.cancelled = true;
    request(call.user, call.keys, timeout, (err, id) => {
      settled[k] = { at: now, ok: !err };
      if (!err) { stored = { id, keys: call.keys, prev: stored }; return; }
      if (c.retry && retryable(err)) { chain.cancelled = true; chain = { cancelled: false }; attempt(chain, call, 0, MIN); }
    });
  }));
  while (q.length) { q.sort((a, b) => a.t - b.t || a.s - b.s); const e = q.shift(); now = e.t; e.f(); if (requests.length > 400) break; }
  return { requests, settled, stored };
}
const badFirst = (fc) => fc.record({ kind: fc.constant('status'), status: fc.constantFrom(400, 401, 403, 404, 413, 499), delay: fc.constantFrom(3, 40) });
const outcome = (fc) => fc.oneof(
  { weight: 2, arbitrary: fc.record({ kind: fc.constant('ok'), delay: fc.constantFrom(1, 20, 700, 9000) }) },
  { weight: 3, arbitrary: fc.record({ kind: fc.constantFrom('net', 'badJson'), delay: fc.constantFrom(1, 20, 700) }) },
  { weight: 3, arbitrary: fc.record({ kind: fc.constant('status'), status: fc.constantFrom(429, 500, 502, 503, 599, 301, 204), delay: fc.constantFrom(1, 20, 700) }) },
  { weight: 1, arbitrary: fc.record({ kind: fc.constantFrom('ok', 'net'), delay: fc.constantFrom(10001.5, 15000.5) }) },
  { weight: 1, arbitrary: fc.constant({ kind: 'hang' }) });
const call = (fc, i) => fc.record({ gap: i === 0 ? fc.constant(0) : fc.oneof({ weight: 2, arbitrary: fc.constantFrom(0, 1, 100, 450, 520, 1300, 2400, 20000, 60000) }, { weight: 1, arbitrary: fc.nat(9000) }), keys: fc.option(fc.constantFrom(['a'], ['a', 'b'], []), { nil: undefined, freq: 3 }) });
const mk = (fc, outs) => fc.record({ retry: fc.constantFrom(true, true, true, false), throwOnError: fc.boolean(), timeout: fc.constantFrom(undefined, 600.5), outcomes: outs, calls: fc.integer({ min: 1, max: 4 }).chain((k) => fc.tuple(...Array.from({ length: k }, (_, i) => call(fc, i)))) }).map((c) => { let t = 0; return { ...c, calls: c.calls.map((x, i) => { t += x.gap; return { at: t, keys: x.keys, user: 'u' + i }; }) }; });
async function run(c, ctx, { bundle }) {
  const clock = new Clock(1_700_000_000_000); const t0 = clock.now;
  let n = 0;
  const page = clientPage({ bundle, clock, vardata: () => {
    const id = n++; const o = c.outcomes[id % c.outcomes.length];
    if (o.kind === 'hang') return 'hang'; if (o.kind === 'net') return { kind: 'error', delay: o.delay };
    if (o.kind === 'badJson') return { body: '{', delay: o.delay };
    if (o.kind === 'status') return { status: o.status, body: {}, delay: o.delay };
    return { body: { a: { key: 'r' + id } }, delay: o.delay };
  } });
  const client = page.init('some-deployment', { retryFetchOnFailure: c.retry, throwOnError: c.throwOnError, pollOnStart: false, fetchTimeoutMillis: c.timeout, automaticExposureTracking: false });
  const want = simulate(c);
  const states = c.calls.map(() => ({ s: 'pending' }));
  c.calls.forEach((call, k) => clock.at(t0 + call.at + k / 1024, () => { client.fetch({ user_id: call.user }, call.keys ? { flagKeys: call.keys } : undefined).then(() => { states[k] = { s: 'ok', at: clock.now - t0 }; }, () => { states[k] = { s: 'rejected', at: clock.now - t0 }; }); }));
  await clock.advance((want.requests[want.requests.length - 1]?.at ?? 0) + 90000);
  const got = page.requests.filter((r) => r.kind === 'vardata').map((r) => ({ at: r.at - t0, user: decodeUser(r.headers).user_id, keys: r.headers['X-Amp-Exp-Flag-Keys'] ? decodeJson(r.headers['X-Amp-Exp-Flag-Keys']) : undefined }));
  same(got.length, want.requests.length, `number of variant requests (times ${show(got.map((g) => g.at))}, expected ${show(want.requests.map((g) => g.at))})`);
  want.requests.forEach((w, i) => { if (Math.abs(w.at - got[i].at) > 0.01) fail(`request ${i} at ${got[i].at} ms, expected ${w.at} ms; all ${show(got.map((g) => g.at))} expected ${show(want.requests.map((g) => g.at))}`); same([got[i].user, got[i].keys], [w.user, w.keys], `user and flag keys of request ${i}`); });
  c.calls.forEach((_, k) => { same(states[k].s, want.settled[k].ok || !c.throwOnError ? 'ok' : 'rejected', `outcome of fetch ${k}`); if (Math.abs(states[k].at - want.settled[k].at) > 0.01) fail(`fetch ${k} settled at ${states[k].at}, expected ${want.settled[k].at}`); });
  const s = want.stored;
  // a response for no keys or for keys which include "a" replaces it; otherwise (never here) it would stay
  same(client.variant('a'), s ? { key: 'r' + s.id } : {}, 'stored variant at the end');
  const retries = want.requests.length - c.calls.length;
  ctx.nontrivial(retries > 0); ctx.cls('retries', retries > 0); ctx.cls('exhausted', retries >= 8); ctx.cls('several fetches', c.calls.length > 1);
}
export default {
  id: 'X04', level: 'exploration',
  rule: 'a case is non-trivial when at least one background retry is due',
  assumptions: ['8 attempts, 500 ms first delay, factor 1.5, 10 s cap and 10 s attempt timeout are the fixed parameters of the SDK', 'attempts of a running retry sequence are only given retryable failures or success'],
  async setup() { return { bundle: await scopedBundle('browser') }; },
  parts: [
    { name: 'schedules', what: 'request times, users, stored results and settlement against a discrete event simulation', runs: { quick: 2600, thorough: 80000 }, expect: { retries: 0.4 }, arb: (fc) => mk(fc, fc.array(outcome(fc), { minLength: 1, maxLength: 8, size: 'max' })), check: run },
    { name: 'client-errors', what: 'a fetch rejected with a client error is not retried, whatever the neighbouring fetches do', runs: { quick: 600, thorough: 20000 },
      arb: (fc) => fc.record({ o: badFirst(fc), gap: fc.constantFrom(1, 300, 5000), k: fc.integer({ min: 1, max: 3 }), throwOnError: fc.boolean(), keys: fc.option(fc.constantFrom(['a'], []), { nil: undefined }) }).map((x) => ({ retry: true, throwOnError: x.throwOnError, timeout: undefined, outcomes: [x.o], calls: Array.from({ length: x.k }, (_, i) => ({ at: i * x.gap, keys: x.keys, user: 'u' + i })) })),
      async check(c, ctx, env) { await run(c, ctx, env); ctx.nontrivial(); } },
    { name: 'long', what: 'long failure runs: exhaustion after the fixed number of attempts', runs: { quick: 400, thorough: 10000 }, expect: { exhausted: 0.2 },
      arb: (fc) => mk(fc, fc.array(fc.oneof({ weight: 8, arbitrary: fc.record({ kind: fc.constantFrom('net', 'badJson'), delay: fc.constantFrom(1, 300) }) }, { weight: 1, arbitrary: fc.constant({ kind: 'ok', delay: 1 }) }), { minLength: 6, maxLength: 12, size: 'max' })), check: run },
  ],
};
