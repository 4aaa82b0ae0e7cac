import { scopedBundle } from '../lib/build.mjs';
import { tagPage, Clock, Jar, MemStorage } from '../lib/taglight.mjs';
import { conditionMatches, lookup } from '../lib/refeval.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const KEY = 'client-dep', HOUR = 3600000;
const TYPES = ['view', 'buy', 'leave', '[Amplitude] Page Viewed', 'constructor'];
const OPS = ['greater or equal', 'greater', 'is', 'less', 'less or equal', 'is not'];
const FLAGS = ['f1', 'f2', 'hasOwnProperty'];
const propFilter = (fc) => fc.record({ selector: fc.constantFrom(['context', 'plan'], ['context', 'n'], ['context', 'deep', 'x']), op: fc.constantFrom('is', 'is not', 'contains', 'greater', 'less or equal', 'set contains any', 'regex match'), values: fc.constantFrom(['pro'], ['1'], ['2', 'pro'], ['(none)']) });
const condArb = (fc) => fc.record({ negated: fc.constantFrom(undefined, false, false, true), condition: fc.record({
  type: fc.constant('behavior'), event_type: fc.constantFrom(...TYPES), op: fc.constantFrom(...OPS), value: fc.constantFrom(0, 1, 1, 2, 2, 3, 5),
  time_type: fc.constantFrom('current_session', 'rolling', 'rolling'), time_value: fc.constantFrom(0, 1, 2, 24, 1000), interval: fc.constantFrom('day', 'hour', undefined), event_props: fc.option(fc.array(propFilter(fc), { maxLength: 2 }), { nil: undefined }) }) });
const ruleArb = (fc) => fc.array(fc.array(condArb(fc), { minLength: 0, maxLength: 3 }), { maxLength: 3 });
const rulesArb = (fc) => fc.dictionary(fc.constantFrom(...FLAGS), fc.dictionary(fc.constantFrom('b1', 'b2', '7'), ruleArb(fc), { maxKeys: 3 }), { minKeys: 1, maxKeys: 3 });
const propsArb = (fc) => fc.record({ plan: fc.constantFrom('pro', 'free', null, ['pro', 'x']), n: fc.constantFrom(0, 1, 2, '2', 10), deep: fc.constantFrom({ x: 'pro' }, 'x') }, { requiredKeys: [] });
const GAPS = [0, 1, 1000, 60000, 29 * 60000, 30 * 60000, 30 * 60000 + 1, HOUR - 1, HOUR, HOUR + 1, 2 * HOUR, 23 * HOUR, 24 * HOUR, 25 * HOUR];
const opArb = (fc) => fc.oneof(
  { weight: 10, arbitrary: fc.record({ op: fc.constant('track'), type: fc.constantFrom(...TYPES, 'unrelated'), props: propsArb(fc), gap: fc.constantFrom(...GAPS) }) },
  { weight: 2, arbitrary: fc.record({ op: fc.constant('reload'), gap: fc.constantFrom(...GAPS) }) },
  { weight: 2, arbitrary: fc.record({ op: fc.constant('relay'), gap: fc.constantFrom(...GAPS), far: fc.array(fc.record({ type: fc.constantFrom(...TYPES), props: propsArb(fc), ago: fc.constantFrom(...GAPS), here: fc.boolean() }), { maxLength: 4 }), outcome: fc.constantFrom('ok', 'ok', 'ok', 'unavailable', 'fails') }) });
const plain = (m) => Object.fromEntries([...m].map(([k, v]) => [k, [...v].sort()]).sort((a, b) => (a[0] < b[0] ? -1 : 1)));
const copy = (x) => JSON.parse(JSON.stringify(x));
export default {
  id: 'T11', level: 'exploration',
  rule: 'a case is non-trivial when some behavior both starts and stops matching, or starts matching after other events of the same name did not suffice',
  assumptions: ['a behavior is re-evaluated when one of its own events occurs, on page load and when the shared history is merged; the mere passing of time re-evaluates nothing'],
  async setup() { return { bundle: await scopedBundle('tag') }; },
  parts: [{
    name: 'histories', what: 'events, reloads, shared history merges and time over generated rules; matched behaviors against counting from scratch', runs: { quick: 3500, thorough: 120000 }, expect: { changes: 0.3 },
    arb: (fc) => fc.record({ rules: rulesArb(fc), timeout: fc.constantFrom(undefined, undefined, 60000), ops: fc.array(opArb(fc), { minLength: 3, maxLength: 16, size: 'max' }) }),
    async check(c, ctx, { bundle }) {
      const clock = new Clock(); const jar = new Jar(clock), local = new MemStorage(); const rules = copy(c.rules); const T = c.timeout || 30 * 60000;
      let events = [], session = 0, last = -Infinity, matched = {}, m, n = 0, changes = 0, page;
      const now = () => clock.now;
      const current = () => (now() - last <= T ? session : -1);
      const window = (e, q) => (q.time_type === 'current_session' ? e.session === current() : e.at >= now() - q.time_value * HOUR * (q.interval === 'day' ? 24 : 1));
      const compare = { 'greater or equal': (a, b) => a >= b, greater: (a, b) => a > b, is: (a, b) => a === b, less: (a, b) => a < b, 'less or equal': (a, b) => a <= b, 'is not': (a, b) => a !== b };
      const holds = ({ condition: q, negated }) => {
        const count = events.filter((e) => e.type === q.event_type && window(e, q) && (q.event_props || []).every((f) => conditionMatches(lookup({ context: e.props }, f.selector), f.op, f.values))).length;
        return compare[q.op](count, q.value) !== (negated === true);
      };
      const satisfied = (rule) => rule.some((group) => group.every(holds));
      const types = (rule) => new Set(rule.flat().map((x) => x.condition.event_type));
      const refresh = (only) => {
        for (const [flag, ids] of Object.entries(rules)) for (const [id, rule] of Object.entries(ids)) {
          if (only !== undefined && !types(rule).has(only)) continue;
          const k = Object.prototype.hasOwnProperty.call(matched, flag) ? matched[flag] : []; const was = k.includes(id), is = satisfied(rule);
          if (was !== is) changes++;
          const next = is ? [...new Set([...k, id])].sort() : k.filter((x) => x !== id);
          if (next.length) matched[flag] = next; else delete matched[flag];
        }
      };
      const sorted = () => Object.fromEntries(Object.entries(matched).sort((a, b) => (a[0] < b[0] ? -1 : 1)));
      const referenced = new Set(Object.values(rules).flatMap((x) => Object.values(x)).flatMap((r) => [...types(r)]));
      const open = () => { page = tagPage({ bundle, clock, jar, local }); m = new page.M.btManager.BehavioralTargetingManager(KEY, rules, c.timeout); matched = {}; refresh(); };
      open(); same(plain(m.getMatchedBehaviors()), sorted(), 'matched behaviors on the first load');
      for (const o of c.ops) {
        clock.now += o.gap;
        if (o.op === 'track') {
          m.trackEvent(o.type, copy(o.props));
          if (current() < 0) session++; last = now();
          if (referenced.has(o.type)) events.push({ type: o.type, props: copy(o.props), at: now(), session });
          refresh(o.type);
        } else if (o.op === 'reload') { m.cleanup(); open(); }
        else {
          const store = { events: [], nextId: 1 };
          const cookie = new page.M.session.SessionManager(KEY, c.timeout).getCurrentSessionId(); if (current() < 0) { session++; last = now(); }
          for (const f of o.far) { store.events.push({ uuid: 'far' + n, id: n++, event_type: f.type, timestamp: now() - f.ago, session_id: f.here ? cookie : 'elsewhere', properties: copy(f.props) }); }
          const relay = { init: async () => {}, relayAvailable: o.outcome !== 'unavailable', waitForAvailable: async () => false, checkMigrated: async () => true, migrateEvents: async () => {}, readEvents: async () => { if (o.outcome === 'fails') throw new Error('timeout'); return store; }, writeEvent() {}, flush() {} };
          const before = show(sorted()); const p = m.beginRelaySync(relay); await clock.advance(0); const r = await p;
          if (o.outcome === 'ok') {
            o.far.forEach((f) => events.push({ type: f.type, props: copy(f.props), at: now() - f.ago, session: f.here ? session : -2 }));
            refresh(); same(r.status, show(sorted()) === before ? 'unchanged' : 'behaviors_changed', 'outcome of the merge');
          } else same(r.status, o.outcome === 'fails' ? 'sync_failed' : 'unavailable', 'outcome of a failed merge');
        }
        same(plain(m.getMatchedBehaviors()), sorted(), `matched behaviors after ${show(o)}`);
      }
      for (const f of [...FLAGS, 'nope', 'constructor']) if (f !== 'constructor' && f !== 'hasOwnProperty' || Object.prototype.hasOwnProperty.call(rules, f)) same(m.hasRules(f), Object.prototype.hasOwnProperty.call(rules, f), `hasRules(${f})`);
      same(rules, copy(c.rules), 'rules left as given');
      ctx.nontrivial(changes > 1); ctx.cls('changes', changes > 1);
    },
  }],
};
