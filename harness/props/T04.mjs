import { scopedBundle } from '../lib/build.mjs';
import { tagPage, Clock } from '../lib/taglight.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const LIMIT = 512;
const opArb = (fc, big) => fc.oneof(
  { weight: 8, arbitrary: fc.record({ op: fc.constant('track'), i: fc.nat(1), n: big ? fc.constantFrom(1, 5, 400, 511, 512, 513) : fc.integer({ min: 1, max: 3 }), timed: fc.constantFrom(null, null, 'at', 'at', 'zero'), gap: fc.constantFrom(0, 1, 300) }) },
  { weight: 3, arbitrary: fc.record({ op: fc.constant('mode'), i: fc.nat(1), mode: fc.constantFrom('take', 'take', 'refuse', 'throw', 'take-2') }) },
  { weight: 3, arbitrary: fc.record({ op: fc.constant('time'), ms: fc.constantFrom(1, 999, 1000, 1001, 3500) }) },
  { weight: 2, arbitrary: fc.constantFrom({ op: 'grant' }, { op: 'grant' }, { op: 'deny' }) },
  { weight: 1, arbitrary: fc.record({ op: fc.constant('wrap'), i: fc.nat(1) }) });
const part = (name, big, runs) => ({
  name, what: big ? 'beyond the buffer limit' : 'impressions, decisions, refusals of the tracker and time over two integrations', runs, expect: { replayed: 0.15, retried: 0.05 },
  arb: (fc) => fc.record({ required: fc.integer({ min: 0, max: 9 }).map((n) => n < 9), ops: fc.array(opArb(fc, big), { minLength: 3, maxLength: big ? 10 : 22, size: 'max' }) }),
  async check(c, ctx, { bundle }) {
    const clock = new Clock(); const page = tagPage({ bundle, clock }); if (c.required) page.requireConsent();
    let status = 'pending', n = 0, replayed = 0, retried = 0, decided = false;
    const it = [0, 1].map((i) => {
      const s = { mode: 'take', left: 0, got: [], want: [], held: [], next: null };
      // the tracker as scripted, used by code and model alike
      s.take = (mode) => (mode.mode === 'take' ? 'yes' : mode.mode === 'refuse' ? 'no' : mode.mode === 'throw' ? 'throw' : mode.left-- > 0 ? 'yes' : 'no');
      s.code = { mode: 'take', left: 0 }; s.model = { mode: 'take', left: 0 };
      s.plugin = { type: 'integration', name: 'p' + i, track(e) { if (this !== s.plugin) fail('tracker called without its integration'); const r = s.take(s.code); if (r === 'throw') throw new Error('tracker'); if (r === 'yes') s.got.push(JSON.parse(JSON.stringify(e))); return r === 'yes'; } };
      page.M.impressions.wrapIntegrationTrack(s.plugin);
      return s;
    });
    const withheld = () => c.required && status !== 'granted';
    const flush = (s) => { while (s.held.length) { const r = s.take(s.model); if (r !== 'yes') break; s.want.push(s.held.shift()); replayed++; } if (s.held.length) { if (s.next === null) s.next = clock.now + 1000; } else s.next = null; };
    const pass = async (ms) => {
      const end = clock.now + ms;
      for (;;) { // retry ticks of the two integrations
        const due = it.filter((s) => s.next !== null && s.next <= end).sort((a, b) => a.next - b.next)[0]; if (!due) break;
        await clock.advance(due.next - clock.now); due.next = clock.now + 1000; retried++;
        if (withheld()) { due.held = []; due.next = null; } else flush(due);
        if (!it.some((s) => s.next !== null && s.next <= clock.now)) checkAll('retry');
      }
      await clock.advance(end - clock.now);
    };
    const checkAll = (what) => it.forEach((s, i) => same(s.got, s.want, `impressions received by integration ${i} after ${what}`));
    for (const o of c.ops) {
      const s = o.i === undefined ? null : it[o.i];
      if (o.op === 'track') {
        if (o.gap) await pass(o.gap);
        for (let k = 0; k < o.n; k++) {
          const id = n++; const e = { eventType: '$impression', eventProperties: { id, ...(o.timed ? { time: o.timed === 'zero' ? 0 : 5 + id } : {}) } }; const copy = JSON.parse(JSON.stringify(e));
          let out; try { out = s.plugin.track(e); } catch { out = 'throw'; }
          same(JSON.parse(JSON.stringify(e)), copy, 'impression passed in');
          if (!withheld()) { const r = s.take(s.model); if (r === 'yes') s.want.push(copy); same(out, r === 'yes' ? true : r === 'no' ? false : 'throw', 'outcome of a direct impression'); } else {
            same(out, true, 'outcome of an impression before consent');
            if (status === 'pending') { s.held.push(o.timed ? copy : { ...copy, eventProperties: { ...copy.eventProperties, time: clock.now } }); if (s.held.length > LIMIT) s.held.shift(); }
          }
        }
      } else if (o.op === 'mode') { for (const m of [s.code, s.model]) { m.mode = o.mode; m.left = 2; } }
      else if (o.op === 'time') await pass(o.ms);
      else if (o.op === 'wrap') page.M.impressions.wrapIntegrationTrack(s.plugin);
      else {
        const to = o.op === 'grant' ? 'granted' : 'denied'; if (to === status) continue;
        // a denial only settles what is still waiting to be retried at the next retry
        if (status === 'denied') await pass(1000);
        const first = status === 'pending'; status = to; page.consent(to);
        if (c.required && first) it.forEach((x) => { if (to === 'granted') flush(x); else x.held = []; });
        decided = true;
      }
      checkAll(show(o));
    }
    await pass(5000); checkAll('waiting');
    ctx.nontrivial(replayed > 0 || (decided && status === 'denied')); ctx.cls('replayed', replayed > 0); ctx.cls('retried', retried > 0);
  },
});
export default {
  id: 'T04', level: 'exploration',
  rule: 'a case is non-trivial when buffered impressions are replayed or consent is denied',
  assumptions: ['an impression counts as delivered when the tracker returned true', 'impressions still being retried are discarded at the next retry after a denial; re-grants are generated only after that'],
  async setup() { return { bundle: await scopedBundle('tag') }; },
  parts: [part('histories', false, { quick: 3500, thorough: 120000 }), part('overflow', true, { quick: 500, thorough: 10000 })],
};
