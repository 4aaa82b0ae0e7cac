import { scopedBundle } from '../lib/build.mjs';
import { makePage } from '../lib/world.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const copy = (x) => structuredClone(x);
const val = (fc) => fc.oneof(fc.constantFrom('x', 'y', '', 0, 1, true, false, null), fc.constantFrom([], [1], [1, 2], [2, 1], ['x', null], {}, { a: 1 }, { a: { b: 1 } }, { a: { b: 2 } }, { length: 1 }, { length: 0 }));
const props = (fc) => fc.dictionary(fc.constantFrom('p', 'q', 'r', 'constructor'), val(fc), { maxKeys: 3 });
const edit = (fc) => fc.oneof(
  fc.constantFrom('u1', 'u2').map((v) => ({ e: 'setUserId', v })), fc.constantFrom('d1', 'd2').map((v) => ({ e: 'setDeviceId', v })), fc.boolean().map((v) => ({ e: 'setOptOut', v })), props(fc).map((v) => ({ e: 'setUserProperties', v })),
  fc.array(fc.oneof(props(fc).map((v) => ['$set', v]), props(fc).map((v) => ['$unset', v]), fc.constant(['$clearAll', {}]), props(fc).map((v) => ['$add', v])), { maxLength: 3 }).map((v) => ({ e: 'updateUserProperties', v: Object.fromEntries(v) })));
const opArb = (fc) => fc.oneof(
  { weight: 2, arbitrary: fc.record({ op: fc.constant('open'), ed: fc.nat(2) }) }, { weight: 6, arbitrary: fc.record({ op: fc.constant('edit'), ed: fc.nat(2), edit: edit(fc) }) }, { weight: 4, arbitrary: fc.record({ op: fc.constant('commit'), ed: fc.nat(2) }) },
  { weight: 1, arbitrary: fc.record({ op: fc.constant('setIdentity'), v: fc.record({ userId: fc.constantFrom('u1', 'u3'), deviceId: fc.constantFrom('d1'), userProperties: props(fc) }, { requiredKeys: [] }) }) },
  { weight: 1, arbitrary: fc.constant({ op: 'again' }) },
  { weight: 1, arbitrary: fc.record({ op: fc.constant('kick'), by: fc.nat(3), l: fc.nat(3) }) },
  { weight: 2, arbitrary: fc.record({ op: fc.constantFrom('add', 'remove'), l: fc.nat(3) }) });
const propEdit = (fc) => edit(fc).filter((e) => /Prop/.test(e.e));
const block = (fc) => fc.oneof(
  { weight: 4, arbitrary: fc.array(opArb(fc), { minLength: 1, maxLength: 4 }) },
  { weight: 3, arbitrary: fc.record({ ed: fc.nat(2), es: fc.array(fc.oneof({ weight: 3, arbitrary: propEdit(fc) }, { weight: 1, arbitrary: edit(fc) }), { minLength: 1, maxLength: 4 }), open: fc.boolean(), commit: fc.boolean() }).map(({ ed, es, open, commit }) => [...(open ? [{ op: 'open', ed }] : []), ...es.map((e) => ({ op: 'edit', ed, edit: e })), ...(commit ? [{ op: 'commit', ed }] : [])]) });
const eq = (a, b) => { if (a === b) return true; if (typeof a !== typeof b || a === null || b === null || typeof a !== 'object' || Array.isArray(a) !== Array.isArray(b)) return false; const ka = Object.keys(a).sort(), kb = Object.keys(b).sort(); return ka.length === kb.length && ka.every((k, i) => k === kb[i] && eq(a[k], b[k])); };
function applyEdit(m, e) {
  if (e.e === 'setUserId') m.userId = e.v; else if (e.e === 'setDeviceId') m.deviceId = e.v; else if (e.e === 'setOptOut') m.optOut = e.v; else if (e.e === 'setUserProperties') m.userProperties = copy(e.v);
  else for (const [a, p] of Object.entries(e.v)) { m.userProperties = { ...(m.userProperties || {}) }; if (a === '$set') Object.assign(m.userProperties, copy(p)); else if (a === '$unset') for (const k of Object.keys(p)) delete m.userProperties[k]; else if (a === '$clearAll') m.userProperties = {}; }
}
export default {
  id: 'A01', level: 'exploration',
  rule: 'a case is non-trivial when a commit or direct update changed the identity while a listener was registered',
  assumptions: ['identifiers are strings, property values are JSON'],
  async setup() { return { bundle: await scopedBundle('browser') }; },
  parts: [{ name: 'histories', what: 'interleaved editors, operations, direct updates and listener changes vs a plain model', sync: true, runs: { quick: 8000, thorough: 400000 }, expect: { notified: 0.4, interleaved: 0.2, unchanged: 0.1, 'removed while notifying': 0.03 },
    arb: (fc) => fc.record({ chain: fc.boolean(), pre: fc.uniqueArray(fc.nat(3), { maxLength: 3 }), ops: fc.array(block(fc), { minLength: 3, maxLength: 9, size: 'max' }).map((bs) => bs.flat()) }),
    check(c, ctx, env) {
      env.page = env.page || makePage({ bundle: env.bundle });
      const C = env.page.M.connector.AnalyticsConnector; const name = 'a01-' + (env.n = (env.n || 0) + 1);
      const store = C.getInstance(name).identityStore; delete env.page.scope.analyticsConnectorInstances[name];
      let model = { userProperties: {} }; const eds = [], meds = []; const calls = []; const kicks = new Map(), fns = [0, 1, 2, 3].map((i) => (x) => { calls.push([i, copy(x)]); if (gone.has(i)) fail(`listener ${i} was called after its removal during the notification`); if (kicks.has(i)) { const j = kicks.get(i); kicks.delete(i); gone.set(j, calls.some((y) => y[0] === j)); store.removeIdentityListener(fns[j]); } }), gone = new Map(); const reg = new Set();
      const open = (o) => { eds[o.ed] = store.editIdentity(); meds[o.ed] = { m: { ...copy(model), userProperties: copy(model.userProperties || {}) }, base: model }; };
      let kicked = 0, notified = 0, unchanged = 0, interleaved = 0;
      const update = (next, act, what) => { const before = model; calls.length = 0; act(); model = next; if (gone.size) { kicked++; for (const [j, called] of gone) if (!called) reg.delete(j); } const changed = !eq(before, next); if (changed && reg.size) notified++; if (!changed) unchanged++; same([...calls].sort((a, b) => a[0] - b[0]), changed ? [...reg].sort().map((i) => [i, copy(next)]) : [], `listener calls for ${what}`); for (const j of gone.keys()) reg.delete(j); gone.clear(); };
      for (const o of [...c.pre.map((l) => ({ op: 'add', l })), ...c.ops]) {
        if (o.op === 'open') open(o);
        else if (o.op === 'edit') { if (!eds[o.ed]) open(o); const arg = copy(o.edit.v); const before = copy(model); const r = eds[o.ed][o.edit.e](arg); same(arg, o.edit.v, 'argument after the edit'); applyEdit(meds[o.ed].m, o.edit); calls.length = 0; if (c.chain) eds[o.ed] = r; same(store.getIdentity(), before, `identity before commit (${show(o)})`); same(calls.length, 0, 'listener calls before commit'); }
        else if (o.op === 'commit') { if (!eds[o.ed]) continue; if (meds[o.ed].base !== model) interleaved++; const next = copy(meds[o.ed].m); update(next, () => eds[o.ed].commit(), 'commit'); meds[o.ed].base = model; }
        else if (o.op === 'setIdentity') update(copy(o.v), () => store.setIdentity(copy(o.v)), 'setIdentity');
        else if (o.op === 'kick') kicks.set(o.by, o.l);
        else if (o.op === 'again') update(copy(model), () => store.setIdentity(store.getIdentity()), 'setting the same identity');
        else if (o.op === 'add') { store.addIdentityListener(fns[o.l]); reg.add(o.l); }
        else { store.removeIdentityListener(fns[o.l]); reg.delete(o.l); }
        same(store.getIdentity(), model, `identity after ${show(o)}`);
      }
      ctx.nontrivial(notified > 0); ctx.cls('notified', notified > 0); ctx.cls('interleaved', interleaved > 0); ctx.cls('unchanged', unchanged > 0); ctx.cls('removed while notifying', kicked > 0);
    } }],
};
