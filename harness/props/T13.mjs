import { scopedBundle } from '../lib/build.mjs';
import { tagPage, Clock } from '../lib/taglight.mjs';
import { settle } from '../lib/clock.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const ORIGIN = 'https://cdn.amplitude.com', LIMIT = 2000;
const FROM = ['relay', 'relay', 'relay', 'relay', 'other-origin', 'other-window', 'similar-origin', 'no-source'];
const opArb = (fc) => fc.oneof(
  { weight: 2, arbitrary: fc.constant({ op: 'init' }) },
  { weight: 3, arbitrary: fc.record({ op: fc.constant('ready'), from: fc.constantFrom(...FROM), form: fc.constantFrom('text', 'object', 'wrong') }) },
  { weight: 4, arbitrary: fc.record({ op: fc.constantFrom('read', 'check', 'migrate') }) },
  { weight: 5, arbitrary: fc.record({ op: fc.constant('write'), id: fc.nat(4) }) },
  { weight: 9, arbitrary: fc.record({ op: fc.constant('reply'), which: fc.nat(20), from: fc.constantFrom(...FROM), ok: fc.constantFrom(true, true, true, false), error: fc.boolean(), payload: fc.boolean(), twice: fc.boolean() }) },
  { weight: 2, arbitrary: fc.record({ op: fc.constant('noise'), data: fc.constantFrom(null, 'x', 5, {}, { requestId: '' }, { requestId: 'nope', ok: true }, { type: 'AMP_OTHER' }, []) }) },
  { weight: 3, arbitrary: fc.record({ op: fc.constant('time'), ms: fc.constantFrom(1, 100, 1000, 1999, 2000, 2500) }) },
  { weight: 2, arbitrary: fc.record({ op: fc.constant('wait'), ms: fc.constantFrom(0, 500, 2000, undefined) }) },
  { weight: 1, arbitrary: fc.constantFrom({ op: 'flush' }, { op: 'destroy' }, { op: 'body' }) });
export default {
  id: 'T13', level: 'exploration',
  rule: 'a case is non-trivial when requests are answered out of order, late, twice or by a foreign sender, or a write has to be sent again',
  assumptions: ['the page delivers messages with the origin and source the browser sets', 'the shared store ignores repeated events: an unconfirmed write may be delivered more than once'],
  async setup() { return { bundle: await scopedBundle('tag') }; },
  parts: [{
    name: 'exchanges', what: 'lifecycle, requests, writes, replies of every kind, time and destruction against a model of the pending requests and writes', runs: { quick: 3500, thorough: 150000 }, expect: { resent: 0.1, late: 0.04 },
    arb: (fc) => fc.record({ noBody: fc.integer({ min: 0, max: 5 }).map((n) => n === 5), early: fc.integer({ min: 0, max: 7 }).map((n) => n !== 7), ops: fc.array(opArb(fc), { minLength: 4, maxLength: 26, size: 'max' }) }),
    async check(c, ctx, { bundle }) {
      const clock = new Clock(); const page = tagPage({ bundle, clock });
      const realBody = page.document.body; if (c.noBody) page.document.body = null;
      const posted = []; const frames = [];
      page.onIframe = (e) => { const w = { postMessage: (m, o) => posted.push({ m, o, w }) }; e.contentWindow = w; frames.push(e); };
      const r = new page.M.relay.RelayClient('client-dep', 'web-1', ORIGIN + '/script/client-dep.relay.html');
      // model
      let state = 'new', frame = null, available = false, wantFrame = false; let queue = []; let reqs = [], waits = [], inits = [], sent = 0, resent = 0, odd = 0, late = 0;
      const EV = (id) => ({ uuid: 'e' + id, id, event_type: 't', timestamp: id, session_id: 's', properties: { id } });
      const watch = (p, rec) => { rec.out = undefined; rec.n = 0; p.then((v) => { rec.out = ['ok', v]; rec.n++; }, (e) => { rec.out = ['error', String(e && e.message)]; rec.n++; }); return rec; };
      const outgoing = (want, what) => {
        const got = posted.slice(sent); sent = posted.length;
        same(got.map((g) => [g.m.type, g.m.payload]), want.map((w) => [w.type, w.payload]), `messages posted by ${what}`);
        got.forEach((g, i) => {
          same(g.o, ORIGIN, 'target origin of a message'); if (g.w !== frame.contentWindow) fail('message posted to another window'); same([g.m.apiKey, g.m.web_exp_id_v2], ['client-dep', 'web-1'], 'identity in a message');
          if (typeof g.m.requestId !== 'string' || reqs.some((x) => x.id === g.m.requestId)) fail(`request identity reused: ${g.m.requestId}`);
          reqs.push(Object.assign(want[i].rec, { id: g.m.requestId, at: clock.now, open: true, type: want[i].type }));
        });
      };
      const writeMsg = (id) => ({ type: 'WRITE_EVENT', payload: { event: EV(id) }, rec: { write: id } });
      const expire = (t) => { for (const q of reqs) if (q.open && q.at + LIMIT <= t) { q.open = false; if (!q.write && q.write !== 0) q.want = ['error', 'relay rpc timeout']; } for (const w of waits) if (!w.done && w.until <= t) { w.done = true; w.want = available; } };
      const becomeFrame = () => { if (wantFrame && page.document.body) { wantFrame = false; frame = frames[frames.length - 1]; } };
      const deliver = (from, data) => page.win.dispatch('message', { origin: from === 'other-origin' ? 'https://evil.example' : from === 'similar-origin' ? ORIGIN + '.evil.example' : ORIGIN, source: from === 'other-window' ? {} : from === 'no-source' ? null : frame ? frame.contentWindow : {}, data });
      const settledCheck = async () => {
        await settle(1);
        for (const q of reqs) if (q.p) { if (q.want === undefined ? q.p.n !== 0 : q.p.n !== 1) fail(`${q.type} settled ${q.p.n} times: ${show(q.p.out)}, expected ${show(q.want)}`); if (q.want) { if (q.want[0] === 'ok') same(q.p.out, q.want, `answer to ${q.type}`); else same(q.p.out && q.p.out[0], 'error', `answer to ${q.type}`); } }
        for (const w of waits) { if (w.want === undefined ? w.p.n !== 0 : w.p.n !== 1) fail(`waiting for the relay settled ${w.p.n} times`); if (w.want !== undefined) same(w.p.out, ['ok', w.want], 'outcome of waiting for the relay'); }
        for (const w of inits) { const done = w.done; if (done ? w.p.n !== 1 : w.p.n !== 0) fail(`initialization settled ${w.p.n} times, expected ${done ? 1 : 0}`); }
        same(r.relayAvailable, available, 'availability'); same(frames.filter((f) => !f.removed).length, frame ? 1 : 0, 'relay frames in the page'); same((page.win.listeners.get('message') || new Set()).size, frame ? 1 : 0, 'message listeners');
      };
      const run = async (o) => {
        if (o.op === 'init') {
          const p = watch(r.init(), {}); const cur = inits.find((x) => !x.dead);
          if (cur) { inits.push({ p, done: cur.done, until: cur.until, follows: cur }); if (!cur.done) inits[inits.length - 1].open = true; }
          else { state = 'open'; wantFrame = true; inits.push({ p, done: false, until: clock.now + LIMIT, dead: false }); becomeFrame(); }
        } else if (o.op === 'body') { page.document.body = realBody; await clock.advance(20); expire(clock.now); for (const w of inits) if (!w.done && w.until <= clock.now) w.done = true; becomeFrame(); }
        else if (o.op === 'ready') {
          deliver(o.from, o.form === 'text' ? 'AMP_RELAY_READY' : o.form === 'object' ? { type: 'AMP_RELAY_READY' } : 'AMP_RELAY_READY_NOT');
          if (frame && o.from === 'relay' && o.form !== 'wrong' && !available) {
            available = true; outgoing(queue.map(writeMsg), 'the relay getting ready'); if (queue.length) resent++;
            for (const w of waits) if (!w.done) { w.done = true; w.want = true; } for (const w of inits) w.done = true;
          } else outgoing([], 'a message which is not a ready message of the relay');
        } else if (o.op === 'read' || o.op === 'check' || o.op === 'migrate') {
          const store = { events: [EV(9)], nextId: 3 };
          const p = watch(o.op === 'read' ? r.readEvents() : o.op === 'check' ? r.checkMigrated('https://www.example.com') : r.migrateEvents('https://www.example.com', store), {});
          if (!available) { outgoing([], 'a request without a relay'); await settle(1); same(p.out && p.out[0], 'error', 'request without a relay'); return; }
          outgoing([{ type: { read: 'READ_EVENTS', check: 'CHECK_MIGRATED', migrate: 'MIGRATE_EVENTS' }[o.op], payload: o.op === 'read' ? undefined : o.op === 'check' ? { sourceOrigin: 'https://www.example.com' } : { sourceOrigin: 'https://www.example.com', store }, rec: { p, kind: o.op } }], o.op);
        } else if (o.op === 'write') {
          r.writeEvent(EV(o.id)); if (state === 'destroyed') { outgoing([], 'a write after destruction'); return; }
          if (!queue.includes(o.id)) queue.push(o.id); outgoing(available ? [writeMsg(o.id)] : [], 'a write');
        } else if (o.op === 'flush') { r.flush(); outgoing(available ? queue.map(writeMsg) : [], 'a flush'); if (available && queue.length) resent++; }
        else if (o.op === 'reply') {
          if (!reqs.length) return; const q = reqs[(reqs.length - 1 - (o.which % reqs.length))];
          const payload = o.payload ? (q.kind === 'check' ? { migrated: true } : { events: [EV(8)], nextId: 9 }) : undefined;
          for (let k = 0; k <= (o.twice ? 1 : 0); k++) deliver(o.from, { requestId: q.id, ok: o.ok, payload, ...(o.error ? { error: 'bad' } : {}) });
          if (o.from !== 'relay' || !frame || !q.open) { odd++; if (!q.open && o.from === 'relay') late++; return; }
          if (q !== reqs.filter((x) => x.open)[0]) odd++;
          q.open = false;
          if (q.write !== undefined) { if (o.ok) queue = queue.filter((x) => x !== q.write); }
          else q.want = !o.ok ? ['error', ''] : ['ok', q.kind === 'migrate' ? undefined : q.kind === 'check' ? !!o.payload : payload || { events: [], nextId: 1 }];
        } else if (o.op === 'noise') { if (frame) deliver('relay', o.data); }
        else if (o.op === 'time') { const t = clock.now + o.ms; expire(t); for (const w of inits) if (!w.done && w.until <= t) w.done = true; await clock.advance(o.ms); becomeFrame(); }
        else if (o.op === 'wait') { const p = watch(r.waitForAvailable(o.ms), {}); const w = { p, until: clock.now + (o.ms ?? LIMIT), done: false, want: undefined }; if (state === 'destroyed' || available) { w.done = true; w.want = state !== 'destroyed' && available; } waits.push(w); if (o.ms === 0) { await clock.advance(0); expire(clock.now); } }
        else if (o.op === 'destroy') {
          r.destroy(); state = 'destroyed'; available = false; frame = null; wantFrame = false; queue = [];
          for (const q of reqs) if (q.open) { q.open = false; if (q.write === undefined) q.want = ['error', '']; }
          for (const w of waits) if (!w.done) { w.done = true; w.want = false; } for (const w of inits) { w.done = true; w.dead = true; }
        }
        outgoing([], o.op);
      };
      const ops = c.early ? [{ op: 'init' }, ...c.ops] : c.ops;
      for (const o of ops) { await run(o); await settledCheck(); }
      await clock.advance(60000); expire(clock.now); for (const w of inits) w.done = true; becomeFrame(); outgoing([], 'nothing'); await settledCheck();
      for (const q of reqs) if (q.p && q.p.n !== 1) fail(`${q.type} never settled`);
      same(clock.errors.map(String), [], 'errors in timers');
      ctx.nontrivial(odd > 0 || resent > 0); ctx.cls('resent', resent > 0); ctx.cls('late', late > 0);
    },
  }, {
    name: 'address', what: 'relay address from zone and override', sync: true, runs: { quick: 500, thorough: 5000 },
    arb: (fc) => fc.record({ key: fc.stringMatching(/^[a-z0-9-]{1,12}$/), zone: fc.constantFrom(undefined, 'US', 'EU', 'us'), over: fc.option(fc.tuple(fc.constantFrom('http://localhost:3000', 'https://x.example'), fc.constantFrom('', '/', '//')), { nil: undefined }) }),
    check(c, ctx, env) {
      env.page = env.page || tagPage({ bundle: env.bundle });
      const got = env.page.M.relay.getRelayUrl(c.key, c.zone, c.over && c.over.join(''));
      same(got, `${c.over ? c.over[0] : c.zone === 'EU' ? 'https://cdn.eu.amplitude.com' : 'https://cdn.amplitude.com'}/script/${c.key}.relay.html`, 'relay address'); ctx.nontrivial(!!c.over);
    },
  }],
};
