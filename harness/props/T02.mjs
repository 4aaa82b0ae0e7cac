import { scopedBundle } from '../lib/build.mjs';
import { tagPage, Clock, MemStorage } from '../lib/taglight.mjs';
import { settle } from '../lib/clock.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const KEYS = ['EXP_abc', 'EXP_abc_DEFAULT_USER_PROVIDER', 'EXP_abc_rtbt_events', 'other', 'amp-preview-mode', 'visual-editor-state', 'toString'];
const EXEMPT = new Set(['amp-preview-mode', 'visual-editor-state']);
const idObj = (fc) => fc.record({ web_exp_id: fc.constantFrom('w1', 'w2'), web_exp_id_v2: fc.constantFrom('v1', 'v2'), device_id: fc.constantFrom('d1', 'd2'), first_seen: fc.constantFrom('1', '2'), x: fc.nat(3) }, { requiredKeys: [] });
const anyVal = (fc) => fc.oneof({ weight: 4, arbitrary: idObj(fc) }, { weight: 2, arbitrary: fc.array(idObj(fc), { maxLength: 2 }) }, { weight: 1, arbitrary: fc.constantFrom('text', 5, true, { a: { b: ['ü'] } }) });
const val = (fc, key) => (key === 'EXP_abc' || key.endsWith('PROVIDER') ? idObj(fc) : anyVal(fc));
const raw = (fc) => fc.oneof({ weight: 5, arbitrary: idObj(fc).map((x) => JSON.stringify(x)) }, { weight: 1, arbitrary: fc.constantFrom('{', '', 'plain') });
const copy = (x) => (x === undefined ? undefined : JSON.parse(JSON.stringify(x)));
const parse = (t) => { if (!t) return null; try { return JSON.parse(t); } catch { return null; } };
const STICKY = { EXP_abc: ['web_exp_id', 'web_exp_id_v2', 'device_id'], EXP_abc_DEFAULT_USER_PROVIDER: ['first_seen'] };
function merged(key, pending, device) {
  const d = parse(device), names = Object.prototype.hasOwnProperty.call(STICKY, key) ? STICKY[key] : null; if (!names || !device || d === null) return pending;
  const p = parse(pending); for (const n of names) if (d[n] !== undefined) p[n] = d[n]; return JSON.stringify(p);
}
const TYPES = ['localStorage', 'sessionStorage'];
const at = (fc) => ({ t: fc.nat(1), k: fc.nat(KEYS.length - 1) });
const opArb = (fc) => fc.oneof(
  { weight: 6, arbitrary: fc.nat(KEYS.length - 1).chain((k) => fc.record({ op: fc.constant('set'), t: fc.nat(1), k: fc.constant(k), v: val(fc, KEYS[k]), twist: fc.boolean() })) },
  { weight: 4, arbitrary: fc.record({ op: fc.constant('get'), ...at(fc) }) }, { weight: 3, arbitrary: fc.record({ op: fc.constant('remove'), ...at(fc) }) },
  { weight: 1, arbitrary: fc.record({ op: fc.constant('device'), ...at(fc), raw: raw(fc) }) },
  { weight: 1, arbitrary: fc.constantFrom({ op: 'grant' }, { op: 'deny' }, { op: 'require' }) }, { weight: 1, arbitrary: fc.record({ op: fc.constant('full'), key: fc.constantFrom(null, null, 'EXP_abc', 'other') }) });
export default {
  id: 'T02', level: 'exploration',
  rule: 'a case is non-trivial when buffered values reach the device by a grant over existing content, or are dropped by a denial',
  assumptions: ['a removal before the decision only takes back what the page itself buffered: it never deletes device content', 'identity entries hold JSON objects'],
  async setup() { return { bundle: await scopedBundle('tag') }; },
  parts: [{
    name: 'stores', what: 'local and session storage through the gate', sync: true, runs: { quick: 4500, thorough: 200000 }, expect: { flushed: 0.07, dropped: 0.1 },
    arb: (fc) => fc.record({ gated: fc.integer({ min: 0, max: 7 }).map((n) => n < 7), initial: fc.array(fc.record({ ...at(fc), raw: raw(fc) }), { maxLength: 4 }), ops: fc.tuple(fc.array(opArb(fc), { minLength: 2, maxLength: 14, size: 'max' }), fc.constantFrom([{ op: 'grant' }], [{ op: 'grant' }], [{ op: 'deny' }], []), fc.array(opArb(fc), { maxLength: 8 })).map((x) => x.flat()) }),
    check(c, ctx, { bundle }) {
      const page = tagPage({ bundle, clock: new Clock() }); const S = page.M.storage; const real = [page.local, page.session]; const dev = [new Map(), new Map()]; const put = (t, k, r) => { real[t].setItem(k, r); dev[t].set(k, r); };
      for (const i of c.initial) put(i.t, KEYS[i.k], i.raw);
      let required = false, status = 'pending', buffer = new Map(), full = null, flushed = 0, dropped = 0, decided = false, watched = false;
      const fails = (k) => k === full; real.forEach((s) => { s.failSet = (k) => fails(k); });
      if (c.gated) { page.requireConsent(); required = true; }
      const store = (t, k, json) => { if (!fails(k)) dev[t].set(k, json); };
      for (const o of c.ops) {
        const k = KEYS[o.k], id = `${o.t}:${k}`; const gated = required && status !== 'granted' && !EXEMPT.has(k);
        if (o.op === 'set') {
          const v = copy(o.v), json = JSON.stringify(v); S.setStorageItem(TYPES[o.t], k, v); if (o.twist && v && typeof v === 'object') v.twisted = 1;
          if (!gated) store(o.t, k, json); else if (status === 'pending') { buffer.delete(`${id}`); buffer.set(id, { t: o.t, k, json }); watched = true; }
        } else if (o.op === 'get') {
          const want = gated ? (buffer.has(id) ? JSON.parse(buffer.get(id).json) : null) : parse(dev[o.t].get(k)); if (gated && status === 'pending') watched = true;
          const got = S.getStorageItem(TYPES[o.t], k); same(got, want, `read of ${k}`); if (got && typeof got === 'object') got.spoiled = true; same(S.getStorageItem(TYPES[o.t], k), want, `second read of ${k}`);
        } else if (o.op === 'remove') { S.removeStorageItem(TYPES[o.t], k); if (required && status === 'pending' && !EXEMPT.has(k)) { buffer.delete(id); watched = true; } else dev[o.t].delete(k); }
        else if (o.op === 'device') { if (!fails(k)) put(o.t, k, o.raw); }
        else if (o.op === 'require') { page.requireConsent(); required = true; }
        else if (o.op === 'full') full = o.key;
        else { const to = o.op === 'grant' ? 'granted' : 'denied'; if (to === status) continue; status = to; page.consent(to); decided = true; if (to === 'granted') { for (const b of buffer.values()) { if (dev[b.t].has(b.k)) flushed++; store(b.t, b.k, merged(b.k, b.json, dev[b.t].get(b.k))); } } else dropped += buffer.size; buffer.clear(); }
        [0, 1].forEach((t) => { const got = Object.fromEntries([...real[t].m].sort()), want = Object.fromEntries([...dev[t]].sort()); const norm = (x) => Object.fromEntries(Object.entries(x).map(([n, r]) => [n, parse(r) ?? { raw: r }])); same(norm(got), norm(want), `${TYPES[t]} after ${show(o)} (${required ? status : 'consent not required'})`); });
      }
      ctx.nontrivial(flushed > 0 || dropped > 0); ctx.cls('flushed', flushed > 0); ctx.cls('dropped', dropped > 0);
    },
  }, {
    name: 'cookies', what: 'the asynchronous cookie store through the gate, with slow and failing cookie access', runs: { quick: 3000, thorough: 100000 }, expect: { flushed: 0.15, 'denied-during-flush': 0.02 },
    arb: (fc) => fc.record({ initial: fc.dictionary(fc.constantFrom('identity', 'k2', 'k3'), idObj(fc).map((x) => JSON.stringify(x)), { maxKeys: 2 }), latency: fc.constantFrom(0, 0, 5), failing: fc.constantFrom(null, null, 'k2', 'identity'),
      ops: ((one) => fc.tuple(fc.array(one, { minLength: 2, maxLength: 9, size: 'max' }), fc.constantFrom([{ op: 'grant' }], [{ op: 'grant' }], [{ op: 'grant' }, { op: 'deny' }], [{ op: 'grant' }, { op: 'time', ms: 4 }, { op: 'deny' }], [{ op: 'deny' }]), fc.array(one, { maxLength: 7 })).map((x) => x.flat()))(fc.oneof({ weight: 5, arbitrary: fc.record({ op: fc.constant('set'), k: fc.constantFrom('identity', 'k2', 'k3'), v: fc.oneof(idObj(fc).map((x) => JSON.stringify(x)), idObj(fc)) }) }, { weight: 3, arbitrary: fc.record({ op: fc.constantFrom('get', 'remove'), k: fc.constantFrom('identity', 'k2', 'k3') }) }, { weight: 3, arbitrary: fc.record({ op: fc.constant('time'), ms: fc.constantFrom(1, 4, 5, 30) }) }, { weight: 2, arbitrary: fc.constantFrom({ op: 'grant' }, { op: 'deny' }) })) }),
    async check(c, ctx, { bundle }) {
      const clock = new Clock(); const page = tagPage({ bundle, clock }); page.requireConsent(); let status = 'pending';
      const disk = new Map(Object.entries(c.initial)); const late = []; let busy = 0;
      const slow = (f) => new Promise((res, rej) => { busy++; const go = () => { busy--; try { res(f()); } catch (e) { rej(e); } }; if (c.latency) clock.at(clock.now + c.latency, go); else go(); });
      const delegate = { get: (k) => slow(() => { if (k === c.failing) throw new Error('blocked'); return copy(disk.get(k)); }), set: (k, v) => { if (status !== 'granted') late.push([k, status]); return slow(() => { if (k === c.failing) throw new Error('blocked'); disk.set(k, copy(v)); }); }, remove: (k) => { if (status === 'pending') late.push(['remove ' + k, status]); return slow(() => { if (k === c.failing) throw new Error('blocked'); disk.delete(k); }); } };
      const s = new page.M.consentCookie.ConsentAwareCookieStorage(delegate);
      const mergeC = (dev, v) => { if (typeof v !== 'string' || dev === undefined) return v; const d = typeof dev === 'string' ? parse(dev) : null; if (!d) return v; const p = parse(v); for (const n of ['web_exp_id_v2', 'first_seen']) if (d[n] !== undefined) p[n] = d[n]; return JSON.stringify(p); };
      let want = new Map(disk), buffer = new Map(), flushed = 0, denied = false, during = false, decided = false; const norm = (m) => Object.fromEntries([...m].sort().map(([k, v]) => [k, typeof v === 'string' ? parse(v) : v]));
      // operations after the decision settle completely before the next one, except a decision which may come at any moment
      let settled = true; const quiet = async () => { settled = true; await clock.advance(0); for (let i = 0; i < 40 && busy; i++) await clock.advance(5); await clock.advance(0); };
      for (const o of c.ops) {
        if (during) { await quiet(); }
        if (o.op === 'time') { await clock.advance(o.ms); continue; }
        if (o.op === 'grant' || o.op === 'deny') {
          const to = o.op === 'grant' ? 'granted' : 'denied'; if (to === status) continue;
          if (status === 'denied') await quiet();
          if (to === 'denied' && status === 'granted' && !settled) { during = true; ctx.cls('denied-during-flush'); }
          const first = !decided; decided = true; status = to; page.consent(to);
          if (to === 'granted' && first && buffer.size) settled = false;
          if (to === 'granted' && first) for (const [k, v] of buffer) { if (k !== c.failing) { if (want.has(k)) flushed++; want.set(k, mergeC(want.get(k), v)); } }
          if (to === 'denied') denied = true; buffer.clear(); continue;
        }
        const arg = o.op === 'set' ? copy(o.v) : undefined; const p = (o.op === 'set' ? s.set(o.k, arg) : o.op === 'get' ? s.get(o.k) : s.remove(o.k)).then((v) => ['ok', v], () => ['failed']);
        await quiet(); const out = await p;
        if (during) { same(late, [], 'writes started without consent'); continue; }
        if (status === 'granted') { if (o.k === c.failing) same(out[0], 'failed', 'outcome with blocked cookies'); else if (o.op === 'set') want.set(o.k, copy(o.v)); else if (o.op === 'remove') want.delete(o.k); else same(out, ['ok', want.get(o.k)], `cookie ${o.k} with consent`); }
        else if (o.op === 'set') { same(out[0], 'ok', 'outcome of a withheld write'); if (typeof arg === 'object') arg.late = 'caller'; /* what the caller does with its object afterwards is not what it stored */ if (status === 'pending') { buffer.delete(o.k); buffer.set(o.k, copy(o.v)); } }
        else if (o.op === 'get') same(out, ['ok', status === 'pending' ? buffer.get(o.k) : undefined], `cookie ${o.k} without consent (${status})`), typeof out[1] === 'object' && out[1] && (out[1].late = 'reader');
        else if (status === 'pending') buffer.delete(o.k); else if (o.k !== c.failing) want.delete(o.k);
      }
      await quiet(); same(late, [], 'writes started without consent');
      if (!during) same(norm(disk), norm(want), 'cookies in the end');
      ctx.nontrivial(flushed > 0 || denied); ctx.cls('flushed', flushed > 0);
    },
  }],
};
