import { scopedBundle } from '../lib/build.mjs';
import { clientPage, MemStorage, Clock } from '../lib/client.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const copy = (x) => (x === undefined ? undefined : JSON.parse(JSON.stringify(x)));
const FL = ['f1', 'f2', 'f3', 'web', 'constructor'];
// what the server assigns: a variant, a server default, or nothing
const assign = (fc) => fc.constantFrom('on', 'control', 'treatment', 'default', 'none');
const userArb = (fc) => fc.record({ user_id: fc.constantFrom('u1', 'u2'), device_id: fc.constantFrom('d1', 'd2') }, { requiredKeys: [] });
const opArb = (fc) => fc.oneof(
  { weight: 6, arbitrary: fc.record({ op: fc.constantFrom('look', 'look', 'expose'), flag: fc.constantFrom(...FL), again: fc.nat(2) }) },
  { weight: 2, arbitrary: fc.record({ op: fc.constant('assign'), flag: fc.constantFrom(...FL), to: assign(fc) }) },
  { weight: 2, arbitrary: fc.record({ op: fc.constant('user'), user: userArb(fc) }) },
  { weight: 1, arbitrary: fc.constantFrom({ op: 'reload' }, { op: 'session' }) });
const variant = (flag, to) => { const md = { experimentKey: 'x-' + flag }; if (flag === 'web') md.deliveryMethod = 'web'; return to === 'default' ? { key: 'off', value: 'off', metadata: { ...md, default: true } } : { key: to, value: to, metadata: md }; };
const sameId = (a, b) => ((a.user_id && b.user_id) ? a.user_id === b.user_id : (!a.user_id && !b.user_id) ? a.device_id === b.device_id : false);
const strictId = (a, b) => a.user_id === b.user_id && a.device_id === b.device_id;
export default {
  id: 'X07', level: 'exploration',
  rule: 'a case is non-trivial when some exposure is due again after a change, or some repeated exposure must be suppressed',
  assumptions: ['identity is the user id, or the device id while there is no user id'],
  async setup() { return { bundle: await scopedBundle('browser') }; },
  parts: [
    { name: 'histories', what: 'lookups, exposures, reassignments, identity changes, reloads and new sessions; deliveries to integration and exposure provider vs the model', runs: { quick: 2200, thorough: 80000 },
      expect: { suppressed: 0.4, redelivered: 0.3 },
      arb: (fc) => fc.record({ start: userArb(fc), quota: fc.integer({ min: 0, max: 5 }).map((n) => n === 5), ops: fc.array(opArb(fc), { minLength: 4, maxLength: 24, size: 'max' }) }),
      async check(c, ctx, { bundle }) {
        const local = new MemStorage(); let session = new MemStorage(); const clock = new Clock();
        const assigned = { f1: 'on', f2: 'control', f3: 'default', web: 'on', constructor: 'on' };
        let user = c.start; let events = [], tracked = []; let client;
        if (c.quota) session.failSet = (k) => k.startsWith('EXP_sent');
        const boot = () => {
          const page = clientPage({ bundle, clock, local, session, vardata: () => ({ body: Object.fromEntries(Object.entries(assigned).filter(([, v]) => v !== 'none').map(([k, v]) => [k, variant(k, v)])) }) });
          client = page.init('client-dep', { fetchOnStart: false, pollOnStart: false, exposureTrackingProvider: { track: (e) => tracked.push(e) } });
          client.addPlugin({ type: 'integration', getUser: () => ({}), track: (e) => { events.push(copy(e.eventProperties)); return true; } });
        };
        boot(); await client.fetch(user);
        // model: integration dedupe (session) and provider dedupe (page)
        let sent = new Map(), ident = null, pageSent = new Map(), pageId = {}; let unsure = new Set(), ghost = new Map(), reloaded = false;
        let sup = 0, red = 0;
        for (const o of c.ops) {
          if (o.op === 'assign') { assigned[o.flag] = o.to; await client.fetch(user); continue; }
          if (o.op === 'user') { user = o.user; client.setUser(copy(user)); continue; }
          if (o.op === 'reload' || o.op === 'session') {
            if (o.op === 'session') { session = new MemStorage(); if (c.quota) session.failSet = (k) => k.startsWith('EXP_sent'); sent = new Map(); ident = null; }
            if (c.quota) sent = new Map();
            reloaded = true; pageSent = new Map(); pageId = {}; boot(); client.setUser(copy(user)); continue;
          }
          for (let i = 0; i <= o.again; i++) {
            events = []; tracked = [];
            if (o.op === 'look') client.variant(o.flag); else client.exposure(o.flag);
            const a = assigned[o.flag];
            if (a === 'none') { same([events, tracked], [[], []], `exposure of ${o.flag} without assignment`); continue; }
            const value = a === 'default' ? undefined : a;
            const web = o.flag === 'web';
            let wantI;
            if (web) wantI = 1; else {
              if (ident && !sameId(ident, user)) { ghost = reloaded && !user.user_id && !user.device_id ? sent : new Map(); sent = new Map(); unsure = new Set(); if (ghost.size) reloaded = false; }
              if (reloaded) { unsure = new Set(user.user_id || user.device_id ? sent.keys() : []); reloaded = false; }
              wantI = sent.has(o.flag) && sent.get(o.flag) === value ? 0 : 1;
              if (wantI === 0 && unsure.has(o.flag) && events.length === 1) {
                ctx.report(`exposure of ${o.flag} delivered again after a page load in the same session and identity`, 'reload-redelivers');
                wantI = 1;
              }
              if (wantI === 1 && ghost.has(o.flag) && ghost.get(o.flag) === value && events.length === 0) {
                ctx.report(`exposure of ${o.flag} suppressed after a page load which lost the identity`, 'reload-suppresses');
                wantI = 0;
              }
              unsure.delete(o.flag); ghost.delete(o.flag);
              sent.set(o.flag, value); ident = { ...user };
            }
            if (!strictId(pageId, user)) pageSent = new Map();
            pageId = { ...user };
            const wantP = pageSent.has(o.flag) && pageSent.get(o.flag) === value ? 0 : 1;
            pageSent.set(o.flag, value);
            if (!web) { if (wantI === 0) sup++; else if (i > 0) red++; }
            same(events.length, wantI, `integration deliveries of ${o.flag} (${show(value)}) for ${show(user)}`);
            same(tracked.length, wantP, `provider deliveries of ${o.flag} (${show(value)}) for ${show(user)}`);
            for (const e of [...events, ...tracked]) { same(e.flag_key, o.flag, 'flag of the exposure'); same(e.variant, value, 'variant of the exposure'); }
            if (sent.size && wantI && i === 0) ctx.cls('redelivered');
          }
        }
        ctx.nontrivial(sup > 0); ctx.cls('suppressed', sup > 0);
      } },
  ],
};
