import { scopedBundle } from '../lib/build.mjs';
import { makePage } from '../lib/world.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const NAMES = ['$default_instance', 'a', 'b'];
const opArb = (fc, big) => fc.oneof({ weight: 6, arbitrary: fc.record({ op: fc.constant('log'), i: fc.nat(2), n: big ? fc.constantFrom(1, 100, 511, 512, 513, 700) : fc.integer({ min: 1, max: 4 }) }) }, { weight: 2, arbitrary: fc.record({ op: fc.constant('receiver'), i: fc.nat(2), echo: fc.constantFrom(0, 0, 0, 1, 2) }) }, { weight: 1, arbitrary: fc.record({ op: fc.constant('identity'), i: fc.nat(2), v: fc.constantFrom('u1', 'u2') }) });
const part = (name, big, runs) => ({ name, what: big ? 'beyond the queue limit' : 'log and receiver registration over several instances', sync: true, runs, expect: { queued: 0.2 },
  arb: (fc) => fc.array(opArb(fc, big), { minLength: 2, maxLength: big ? 8 : 20, size: 'max' }),
  check(ops, ctx, { bundle }) {
    const page = makePage({ bundle }); const C = page.M.connector.AnalyticsConnector;
    const st = NAMES.map(() => ({ queue: [], rec: null, got: [], echoed: [], logged: [], user: undefined })); let n = 0, queued = 0, r = 0;
    for (const o of ops) {
      const s = st[o.i]; const bridge = C.getInstance(NAMES[o.i]).eventBridge;
      if (o.op === 'log') for (let k = 0; k < o.n; k++) { const e = { eventType: 't' + n, eventProperties: { n } }; n++; bridge.logEvent(e); if (s.rec) s.want.push([s.rec, e]); else if (s.queue.length < 512) s.queue.push(e); }
      else if (o.op === 'receiver') { const id = ++r; s.want = s.want || []; if (s.queue.length) queued++; for (const e of s.queue) s.want.push([id, e]); s.queue = []; s.rec = id; let echo = o.echo;
        // a receiver may itself log events, which are received too: once, at once, wherever among the waiting ones
        bridge.setEventReceiver((e) => { if (e.echo) { s.echoed.push(e.echo); return; } s.got.push([id, e]); if (echo > 0) { echo--; const k = ++n; s.logged.push(k); bridge.logEvent({ eventType: 'echo', echo: k }); } });
        }
      else { s.user = o.v; C.getInstance(NAMES[o.i]).identityStore.editIdentity().setUserId(o.v).commit(); }
      for (let i = 0; i < NAMES.length; i++) { if (st[i].got.length !== (st[i].want || []).length) same(st[i].got.length, (st[i].want || []).length, `events received by ${NAMES[i]} after ${show(o)}`); same(st[i].echoed, st[i].logged, `events received by ${NAMES[i]} which its receiver logged`); same(C.getInstance(NAMES[i]).identityStore.getIdentity().userId, st[i].user, `user of ${NAMES[i]}`); }
    }
    for (let i = 0; i < NAMES.length; i++) same(st[i].got, st[i].want || [], `events received by ${NAMES[i]} (receiver, event)`);
    const all = NAMES.map((x) => C.getInstance(x)); same(new Set(all).size, NAMES.length, 'distinct connectors'); NAMES.forEach((x, i) => { if (C.getInstance(x) !== all[i]) fail('a second connector for the same name'); });
    ctx.nontrivial(queued > 0); ctx.cls('queued', queued > 0);
  } });
export default {
  id: 'A02', level: 'exploration',
  rule: 'a case is non-trivial when a receiver is registered while events are waiting',
  assumptions: ['receivers do not throw', 'limit of 512 waiting events, the oldest are kept'],
  async setup() { return { bundle: await scopedBundle('browser') }; },
  parts: [part('histories', false, { quick: 3000, thorough: 100000 }), part('overflow', true, { quick: 500, thorough: 10000 })],
};
