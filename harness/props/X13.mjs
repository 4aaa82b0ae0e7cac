import { scopedBundle } from '../lib/build.mjs';
import { clientPage, Clock } from '../lib/client.mjs';
import { decodeUser } from '../lib/world.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const RANK = { error: 1, warn: 2, info: 3, debug: 4, verbose: 5 };
const outcome = (fc, bad) => fc.oneof({ weight: 3, arbitrary: fc.record({ kind: fc.constant('ok'), delay: fc.constantFrom(0, 20, 700) }) }, { weight: bad, arbitrary: fc.record({ kind: fc.constantFrom('net', 'badJson'), delay: fc.constantFrom(0, 20, 700) }) }, { weight: bad, arbitrary: fc.record({ kind: fc.constant('status'), status: fc.constantFrom(400, 404, 429, 500, 503), delay: fc.constantFrom(0, 20) }) }, { weight: bad, arbitrary: fc.constant({ kind: 'hang' }) });
const opArb = (fc) => fc.oneof({ weight: 5, arbitrary: fc.record({ op: fc.constant('fetch'), keys: fc.constantFrom(undefined, undefined, ['a']) }) }, { weight: 2, arbitrary: fc.constant({ op: 'start' }) }, { weight: 1, arbitrary: fc.constant({ op: 'stop' }) }, { weight: 3, arbitrary: fc.record({ op: fc.constant('variant'), key: fc.constantFrom('a', 'b', 'none'), fallback: fc.constantFrom(undefined, 'fb') }) }, { weight: 1, arbitrary: fc.record({ op: fc.constantFrom('exposure', 'all', 'clear') }) }, { weight: 4, arbitrary: fc.record({ op: fc.constant('wait'), ms: fc.constantFrom(1, 600, 12000, 60001) }) });
const setting = (fc) => fc.record({ level: fc.constantFrom(undefined, undefined, null, 0, 1, 2, 3, 4, 5), debug: fc.constantFrom(undefined, undefined, false, null), logger: fc.constantFrom('custom', 'custom', 'console', 'null') }).chain((s) => fc.boolean().map((d) => (s.level === undefined && d ? { ...s, debug: true } : s)));
const plain = (x) => (Object.prototype.toString.call(x) === '[object Error]' || (x && typeof x === 'object' && 'stack' in x) ? `${x.name}: ${x.message}` : show(x));
async function run(c, s, bundle) {
  const clock = new Clock(); const t0 = clock.now, said = [], printed = [], out = []; let vn = 0, fn = 0, page;
  const answer = (list, i, body) => { const o = list[i % list.length]; if (o.kind === 'hang') return 'hang'; if (o.kind === 'net') return { kind: 'error', delay: o.delay }; if (o.kind === 'badJson') return { body: '{', delay: o.delay }; if (o.kind === 'status') return { status: o.status, body: 'no', delay: o.delay }; return { body, delay: o.delay }; };
  const served = []; // [user, outcome kind] per variant request
  const console_ = Object.fromEntries(['log', 'info', 'warn', 'error', 'debug', 'trace'].map((m) => [m, (...a) => printed.push([m, a.map(plain), clock.now - t0])]));
  page = clientPage({ bundle, clock, globals: { console: console_ }, vardata: (r) => { const i = vn++; served.push([decodeUser(r.headers).user_id, c.vardata[i % c.vardata.length].kind]); return answer(c.vardata, i, { a: { key: 'on' + i, value: 'on' + i } }); }, flags: () => answer(c.flags, fn++, [{ key: 'b', variants: { on: { key: 'on' } }, segments: [{ variant: 'on' }], metadata: { evaluationMode: 'local' } }]) });
  class Log { #said = said; } for (const m of Object.keys(RANK)) Log.prototype[m] = function (...a) { if (!(this instanceof Log)) fail(`logger.${m} called without its logger`); said.push([m, a.map(plain), clock.now - t0]); };
  const cfg = { throwOnError: c.throwOnError, retryFetchOnFailure: c.retry, fetchOnStart: c.fetchOnStart, flagConfigPollingIntervalMillis: 60000, automaticExposureTracking: true };
  if (s.level !== undefined) cfg.logLevel = s.level; if (s.debug !== undefined) cfg.debug = s.debug; if (s.logger === 'custom') cfg.loggerProvider = new Log(); else if (s.logger === 'null') cfg.loggerProvider = null;
  const client = page.init(c.key, cfg); let n = 0; const users = [];
  const pending = (what, p) => p.then((v) => out.push([what, 'done', clock.now - t0]), (e) => out.push([what, plain(e), clock.now - t0]));
  let running = false;
  for (const o of c.ops) {
    if (o.op === 'fetch') { const u = 'u' + n++; users.push(u); pending(u, client.fetch({ user_id: u }, o.keys ? { flagKeys: o.keys } : undefined)); }
    else if (o.op === 'start') { const u = 's' + n++; if (!running && c.fetchOnStart !== false) users.push(u); running = true; pending(u, client.start({ user_id: u })); }
    else if (o.op === 'stop') { client.stop(); running = false; }
    else if (o.op === 'variant') out.push([o.key, show(client.variant(o.key, o.fallback))]);
    else if (o.op === 'exposure') client.exposure('a'); else if (o.op === 'all') out.push(['all', show(client.all())]); else if (o.op === 'clear') client.clear();
    else await clock.advance(o.ms);
  }
  client.stop(); await clock.advance(120000);
  out.push(['all', show(client.all())]);
  return { said, printed, out, requests: page.requests.map((r) => [r.kind, r.url, r.at - t0, show(r.headers)]), kept: show([...page.local.m]), served, users, clockErrors: clock.errors.length };
}
export default {
  id: 'X13', level: 'exploration',
  rule: 'a case is non-trivial when the complete log of the history has entries of at least two levels or a fetch failed',
  assumptions: ['debug is not combined with a level', 'timeouts of fetches and failures of flag polls and of background retries are not errors of the caller: they are below the error level'],
  async setup() { return { bundle: await scopedBundle('browser') }; },
  parts: [
    { name: 'levels', what: 'the same history under several logger settings: the log is the complete log cut at the level, in the right place, and nothing else differs', runs: { quick: 1800, thorough: 40000 }, expect: { failed: 0.3, silent: 0.2 },
      arb: (fc) => fc.record({ key: fc.oneof({ weight: 9, arbitrary: fc.constant('some-key') }, { weight: 1, arbitrary: fc.constant('') }), throwOnError: fc.constantFrom(false, false, undefined, true), retry: fc.constantFrom(true, false), fetchOnStart: fc.constantFrom(undefined, true, false), vardata: fc.integer({ min: 0, max: 2 }).chain((b) => fc.array(outcome(fc, b), { minLength: 1, maxLength: 5 })), flags: fc.integer({ min: 0, max: 2 }).chain((b) => fc.array(outcome(fc, b), { minLength: 1, maxLength: 3 })), ops: fc.array(opArb(fc), { minLength: 3, maxLength: 12, size: 'max' }), settings: fc.array(setting(fc), { minLength: 2, maxLength: 3, size: 'max' }) }),
      async check(c, ctx, { bundle }) {
        const full = await run(c, { level: 5, logger: 'custom' }, bundle); same(full.printed, [], 'lines on the console although a logger is given');
        const failed = [];
        for (const u of full.users) { const first = full.served.find((x) => x[0] === u); if (!c.key || (first && first[1] !== 'ok' && first[1] !== 'hang')) failed.push(u); }
        const errors = full.said.filter((x) => x[0] === 'error'), above = full.said.filter((x) => RANK[x[0]] < 3);
        if (!c.throwOnError) { same(errors.length, failed.length, `errors logged; fetches which failed: ${show(failed)}; log ${show(full.said)}`); same(above.length, failed.length, 'errors and warnings logged'); same(full.out.filter((x) => x.length === 3 && x[1] !== 'done'), [], 'rejected although errors are not to be thrown'); }
        else if (!failed.length) same(above, [], 'errors and warnings logged without a failure');
        for (const s of c.settings) {
          const got = await run(c, s, bundle); const level = s.debug === true ? 4 : s.level ?? 1; const want = full.said.filter((x) => RANK[x[0]] <= level);
          const what = `with ${show(s)}`;
          if (s.logger === 'custom') { same(got.said, want, `log ${what}`); same(got.printed, [], `console ${what}`); }
          else { same(got.printed, want.map(([m, ...r]) => [m === 'verbose' ? 'debug' : m, ...r]), `console ${what}`); same(got.said, [], `entries of a logger not configured ${what}`); }
          for (const k of ['out', 'requests', 'kept']) same(got[k], full[k], `${k} ${what} (compared with the complete log)`);
          ctx.cls('silent', full.said.length > 0 && want.length === 0);
        }
        ctx.nontrivial(failed.length > 0 || new Set(full.said.map((x) => x[0])).size > 1); ctx.cls('failed', failed.length > 0);
      } },
    { name: 'passing', what: 'sequences of calls with any arguments: those at or above the level reach the logger or the console, in order, with the same arguments', runs: { quick: 2500, thorough: 50000 }, sync: true, expect: { cut: 0.3 },
      arb: (fc) => fc.record({ level: fc.constantFrom(undefined, 0, 1, 2, 3, 4, 5), where: fc.constantFrom('custom', 'console'), calls: fc.array(fc.record({ m: fc.constantFrom(...Object.keys(RANK)), args: fc.array(fc.oneof(fc.anything({ maxDepth: 1 }), fc.constantFrom('text', undefined, null, 0, '%s', NaN)), { maxLength: 4 }) }), { minLength: 1, maxLength: 8 }) }),
      check(c, ctx, { bundle }) {
        const got = []; const console_ = Object.fromEntries(['log', 'info', 'warn', 'error', 'debug', 'trace'].map((m) => [m, (...a) => got.push([m, a])]));
        const page = clientPage({ bundle, globals: { console: console_ } }); const { AmpLogger } = page.M.ampLogger;
        const target = c.where === 'console' ? new page.M.index.ConsoleLogger() : Object.fromEntries(Object.keys(RANK).map((m) => [m, (...a) => got.push([m, a])]));
        const logger = c.level === undefined ? new AmpLogger(target) : new AmpLogger(target, c.level); const want = [];
        for (const x of c.calls) { logger[x.m](...x.args); if (RANK[x.m] <= (c.level ?? 1)) want.push([c.where === 'console' && x.m === 'verbose' ? 'debug' : x.m, x.args]); }
        same(got.map((x) => x[0]), want.map((x) => x[0]), `calls passed on at level ${c.level}`);
        // nothing given is the same as undefined given
        got.forEach(([m, a], i) => { const w = want[i][1]; for (let k = 0; k < Math.max(a.length, w.length); k++) if (!Object.is(a[k], w[k])) fail(`argument ${k} of ${m}: got ${show(a[k])}, expected ${show(w[k])}`); });
        ctx.nontrivial(want.length < c.calls.length && want.length > 0); ctx.cls('cut', want.length < c.calls.length);
      } },
  ],
};
