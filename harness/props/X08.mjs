import { scopedBundle } from '../lib/build.mjs';
import { clientPage, MemStorage, Clock } from '../lib/client.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const CAP = 512;
const variants = Object.fromEntries(Array.from({ length: 2600 }, (_, i) => ['e' + i, { key: 'on', value: 'on' }]));
const outcomes = (fc) => fc.oneof({ weight: 3, arbitrary: fc.constant('accept') }, { weight: 2, arbitrary: fc.constantFrom('refuse', 'throw') }, { weight: 3, arbitrary: fc.record({ accept: fc.nat(4), then: fc.constantFrom('refuse', 'throw'), times: fc.nat(3) }) });
const opArb = (fc, big) => fc.oneof(
  { weight: 5, arbitrary: fc.record({ op: fc.constant('push'), n: big ? fc.constantFrom(1, 3, 200, 511, 512, 513, 600) : fc.integer({ min: 1, max: 4 }) }) },
  { weight: 4, arbitrary: fc.record({ op: fc.constant('mode'), out: outcomes(fc) }) },
  { weight: 3, arbitrary: fc.record({ op: fc.constant('advance'), ms: fc.constantFrom(200, 900, 1000, 2500, 10000) }) },
  { weight: 2, arbitrary: fc.constant({ op: 'plugin' }) }, { weight: big ? 1 : 2, arbitrary: fc.record({ op: fc.constant('slowPlugin'), fails: fc.boolean(), ms: fc.constantFrom(700, 700, 2900), wait: fc.boolean() }) }, { weight: 2, arbitrary: fc.constant({ op: 'reload' }) });
const part = (name, big, runs, quota) => ({ name, what: quota ? 'the same while storage refuses every write and the page lives on' : big ? 'the same with bulk pushes beyond the capacity' : 'pushes, integration outcomes, polls, reloads and plugin changes', runs,
  expect: big ? { overflow: 0.2 } : { refused: 0.3, ...(quota ? {} : { reload: 0.3 }) },
  arb: (fc) => fc.array(opArb(fc, big), { minLength: 4, maxLength: big ? 8 : 22, size: 'max' }),
  async check(ops, ctx, { bundle }) {
    const local = new MemStorage(), clock = new Clock();
    if (quota) local.failSet = (k) => k.startsWith('EXP_unsent');
    let calls = [], delivered = [], mode = 'accept', left = null, client, page, n = 0;
    const decide = () => {
      if (typeof mode === 'string') return mode;
      if (left === null) left = { a: mode.accept, t: mode.times };
      if (left.a > 0) { left.a--; return 'accept'; }
      if (left.t > 0) { left.t--; return mode.then; }
      mode = 'accept'; return 'accept';
    };
    // tracker: the integration that is set up and in charge; a replaced one is torn down once
    let tracker = null, newest = null, wrong = null; const tornDown = new Map(), made = [];
    const track = (p, self) => (e) => { if (p !== tracker && !wrong) wrong = `integration ${p} was given an event although ${tracker === null ? 'none' : `integration ${tracker}`} is set up and in charge`; if (self && !wrong) wrong = self; const d = decide(); calls.push([e.eventProperties.flag_key, d, p]); if (d === 'accept') { delivered.push(e.eventProperties.flag_key); return true; } if (d === 'throw') throw new Error('boom'); return false; };
    const integration = (p, setup) => { const x = { type: 'integration', g: p, getUser: () => ({}), track(e) { return track(p, this === x ? null : `integration ${p} was called on another object (${this && this.g})`)(e); }, teardown() { tornDown.set(p, (tornDown.get(p) || 0) + 1); }, ...(setup ? { setup } : {}) }; return x; };
    const add = (setup) => { const p = ++gen; const old = newest; newest = p; made.push(p); if (!setup) tracker = p; client.addPlugin(integration(p, setup && (() => new Promise((res, rej) => setup(() => { if (newest === p) tracker = p; }, res, rej))))); if (old !== null) same(tornDown.get(old), 1, `teardowns of integration ${old} after it was replaced`); same(tornDown.get(p), undefined, 'teardowns of the integration just added'); };
    const boot = () => { page = clientPage({ bundle, clock, local }); tracker = newest = null; client = page.init('client-dep', { fetchOnStart: false, pollOnStart: false, source: 'initialVariants', initialVariants: variants }); };
    boot();
    let pending = [], plugged = false, gen = 0, slow = 0; let lost = 0, refused = 0;
    const check = (what) => {
      // everything the integration was given follows the queue order
      for (const [key, d] of calls) {
        same(key, pending[0], `${what}: event offered to the integration (queue ${show(pending.slice(0, 5))}…, calls ${show(calls.slice(0, 8))})`);
        if (d === 'accept') pending.shift(); else refused++;
      }
      calls = []; if (wrong) fail(`${what}: ${wrong}`);
    };
    for (const o of ops) {
      if (o.op === 'push') {
        for (let i = 0; i < o.n; i++) { const key = 'e' + n++; if (n >= 2600) break; pending.push(key); client.exposure(key); check(`push ${key}`);
          if (pending.length > CAP) { pending = pending.slice(-CAP); lost++; } }
      } else if (o.op === 'mode') { mode = o.out; left = null; }
      else if (o.op === 'plugin') { add(); plugged = true; check('addPlugin'); }
      else if (o.op === 'slowPlugin') { add((done, res, rej) => clock.at(clock.now + o.ms, () => { done(); if (o.fails) rej(new Error('x')); else res(); })); plugged = true; if (o.wait) await clock.advance(o.ms + 1); else slow++; check('addPlugin with setup'); }
      else if (o.op === 'reload') { if (quota) continue; clock.timers.clear(); boot(); plugged = false; ctx.cls('reload'); }
      else { await clock.advance(o.ms); check(`after ${o.ms} ms`); }
    }
    // the integration recovers: everything retained arrives
    mode = 'accept'; left = null;
    if (!plugged) { add(); check('final addPlugin'); }
    await clock.advance(2100 + (slow ? 3000 : 0)); check('after recovery');
    same(pending, [], 'events never delivered although the integration accepts again');
    same(new Set(delivered).size, delivered.length, 'number of distinct deliveries');
    same(delivered.length + 0 <= n, true, 'deliveries'); if (lost === 0) same(delivered.length, n, 'delivered events');
    await clock.advance(5000); same(calls, [], 'deliveries after everything was delivered');
    // a fresh load has nothing left to deliver
    if (!quota) { clock.timers.clear(); boot(); } add(); await clock.advance(1500); same(calls, [], 'deliveries after a reload with an empty queue');
    ctx.nontrivial(refused > 0 || lost > 0); ctx.cls('refused', refused > 0); ctx.cls('overflow', lost > 0);
  } });
export default {
  id: 'X08', level: 'exploration',
  rule: 'a case is non-trivial when an event was refused at least once or the queue overflowed',
  assumptions: ['capacity 512 newest events', 'a page ends between events, not within one (JavaScript runs to completion)'],
  async setup() { return { bundle: await scopedBundle('browser') }; },
  parts: [part('histories', false, { quick: 1500, thorough: 50000 }), part('overflow', true, { quick: 30, thorough: 1500 }), part('quota', false, { quick: 500, thorough: 15000 }, true)],
};
