import { bundleScript, scopedBundle } from '../lib/build.mjs';
import { Visitor, webFlag, settle, mutate } from '../lib/tagworld.mjs';
import { tagPage } from '../lib/taglight.mjs';
import { pagesArb, opArb, TriggerWorld, PATHS } from '../lib/triggers.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const TYPES = ['url_change', 'manual', 'analytics_event', 'scrolled_to'];
const FLAGS = ['f1', 'f2'].map((k) => webFlag(k, { on: [mutate([[k]])] }, 'on'));
const sets = (active) => { const o = {}; for (const k of Object.keys(active)) { const l = Object.keys(active[k]).sort(); if (l.length) o[k] = l; } return o; };
export default {
  id: 'T09', level: 'exploration',
  rule: 'bus: two subscribers of one kind and a group callback saw a message; page changes: a subscriber was notified at least twice, or joined or left between notifications',
  assumptions: ['subscribers do not throw', 'intermediate sets within one synchronous burst may be coalesced'],
  async setup() { return { script: await bundleScript('tag'), light: await scopedBundle('tag') }; },
  parts: [{
    name: 'bus', what: 'subscribe, group subscribe, publish (also from inside subscribers), unsubscribe all', sync: true, runs: { quick: 4000, thorough: 150000 }, expect: { several: 0.12, nested: 0.1 },
    arb: (fc) => fc.array(fc.oneof({ weight: 4, arbitrary: fc.record({ op: fc.constant('sub'), type: fc.constantFrom(...TYPES.slice(0, 2), ...TYPES), nested: fc.option(fc.record({ what: fc.constantFrom('publish', 'subscribe', 'group'), type: fc.constantFrom(...TYPES) }), { nil: null, freq: 3 }) }) }, { weight: 2, arbitrary: fc.record({ op: fc.constant('group'), type: fc.constantFrom(...TYPES.slice(0, 2), ...TYPES) }) }, { weight: 5, arbitrary: fc.record({ op: fc.constant('pub'), type: fc.constantFrom(...TYPES.slice(0, 2), ...TYPES), payload: fc.boolean() }) }, { weight: 1, arbitrary: fc.constant({ op: 'clear' }) }), { minLength: 6, maxLength: 24, size: 'max' }),
    check(ops, ctx, { light }) {
      const page = env(light); const bus = new page.M.bus.MessageBus(); const got = [], want = []; let n = 0, several = 0, nested = 0;
      // model: per type the ordered subscribers and the group callback
      let subs = new Map(), groups = new Map(); const list = (t) => subs.get(t) || [];
      const addModel = (t, e) => { subs.set(t, [...list(t), e]); };
      const publishModel = (t, msg) => { const l = list(t); if (l.length >= 2 && groups.has(t)) several++; for (const e of l) { want.push([e.id, t, msg]); if (e.nested && !e.done) { e.done = true; actModel(e); } } if (groups.has(t)) want.push([groups.get(t), t, msg]); };
      const actModel = (e) => { const t = e.nested.type; nested++; if (e.nested.what === 'publish') { if (e.busy) return; publishModel(t, 'n' + e.id); } else if (e.nested.what === 'subscribe') addModel(t, { id: 's' + e.id }); else groups.set(t, 'g' + e.id); };
      const listener = (id, t) => (m) => got.push([id, t, m && m.v]);
      for (const o of ops) {
        if (o.op === 'sub') {
          const id = 'x' + n++; const nestedOp = o.nested && !(o.nested.what === 'publish' && o.nested.type === o.type) ? o.nested : null; let done = false;
          addModel(o.type, { id, nested: nestedOp });
          bus.subscribe(o.type, (m) => { got.push([id, o.type, m && m.v]); if (nestedOp && !done) { done = true; if (nestedOp.what === 'publish') bus.publish(nestedOp.type, { v: 'n' + id }); else if (nestedOp.what === 'subscribe') bus.subscribe(nestedOp.type, listener('s' + id, nestedOp.type)); else bus.groupSubscribe(nestedOp.type, listener('g' + id, nestedOp.type)); } });
        } else if (o.op === 'group') { const id = 'G' + n++; groups.set(o.type, id); bus.groupSubscribe(o.type, listener(id, o.type)); }
        else if (o.op === 'clear') { subs = new Map(); groups = new Map(); bus.unsubscribeAll(); }
        else { const v = o.payload ? 'p' + n++ : undefined; publishModel(o.type, v); bus.publish(o.type, o.payload ? { v } : undefined); }
        same(got, want, `deliveries after ${show(o)}`);
      }
      ctx.nontrivial(several > 0); ctx.cls('several', several > 0); ctx.cls('nested', nested > 0);
    },
  }, {
    name: 'pages', what: 'page-change subscribers joining and leaving over histories of triggers and navigations', runs: { quick: 600, thorough: 15000 }, expect: { notified: 0.3, membership: 0.4 },
    arb: (fc) => fc.record({ pages: pagesArb(fc, { kinds: ['url_change', 'manual', 'analytics_event', 'element_appeared', 'element_appeared', 'user_interaction'] }), path: fc.constantFrom(...PATHS), initial: fc.array(fc.record({ e: fc.integer({ min: 0, max: 4 }), wrap: fc.boolean(), hidden: fc.constantFrom('', '', 'display:none') }), { maxLength: 3 }), preview: fc.boolean(),
      ops: fc.array(fc.oneof({ weight: 6, arbitrary: opArb(fc, { weights: { nav: 5, view: 0, hover: 0, scroll: 0, exit: 0, hidden: 0, show: 1, wait: 0 } }) }, { weight: 1, arbitrary: fc.record({ op: fc.constantFrom('join', 'join', 'leave', 'leave-inside'), i: fc.nat(3) }) }), { minLength: 9, maxLength: 20, size: 'max' }) }),
    async check(c, ctx, { script }) {
      const v = new Visitor({ script });
      try {
        const w = new TriggerWorld(v, c.pages, { flags: FLAGS, path: c.path, initial: c.initial }); w.start(); await w.settled();
        const members = []; let notified = 0, membership = 0; let last = w.page.activePages();
        const join = (from) => { const s = { calls: [], in: true, leaveInside: false, base: from }; s.off = w.page.client.addPageChangeSubscriber((e) => { if (!s.in) fail('a subscriber that left was notified'); s.calls.push(sets(JSON.parse(JSON.stringify(e.activePages)))); if (s.leaveInside) { s.in = false; s.off(); } }); members.push(s); };
        join(last);
        for (const o of c.ops) {
          if (o.op === 'join') { join(last); membership++; continue; }
          if (o.op === 'leave' || o.op === 'leave-inside') { const s = members.filter((x) => x.in)[o.i]; if (s) { if (o.op === 'leave') { s.in = false; s.off(); } else s.leaveInside = true; membership++; } continue; }
          const before = members.map((s) => s.calls.length); const were = members.map((s) => s.in);
          await w.apply({ ...o, rest: true }); const now = w.page.activePages(); same(now, w.expected(), `active pages after ${show(o)}`); const changed = JSON.stringify(now) !== JSON.stringify(last);
          members.forEach((s, k) => {
            const fresh = s.calls.slice(before[k]); if (!were[k]) { if (fresh.length) fail('a subscriber that left was notified'); return; }
            let prev = last; for (const set of fresh) { if (JSON.stringify(sortKeys(set)) === JSON.stringify(sortKeys(prev))) fail(`subscriber ${k} was notified of an unchanged set ${show(set)} after ${show(o)} (calls ${show(fresh)}, before ${show(last)})`); prev = set; }
            if (s.leaveInside && fresh.length === 1 && !s.in) return;
            if (changed && !fresh.length) fail(`subscriber ${k} was not notified of ${show(now)} (before ${show(last)}) after ${show(o)}`);
            if (fresh.length) { same(sortKeys(fresh[fresh.length - 1]), sortKeys(now), `last set subscriber ${k} saw after ${show(o)}`); notified++; }
            if (!changed && fresh.length && o.op !== 'nav' && o.op !== 'back') fail(`subscriber ${k} was notified although ${show(o)} changed nothing`);
            if (o.op !== 'nav' && o.op !== 'back' && fresh.length > 1) fail(`subscriber ${k} was notified ${fresh.length} times of one change by ${show(o)}: ${show(fresh)}`);
          });
          last = now;
        }
        ctx.nontrivial(notified > 1); ctx.cls('notified', notified > 1); ctx.cls('membership', membership > 0);
      } finally { v.close(); await settle(1); }
    },
  }],
};
function sortKeys(o) { const r = {}; for (const k of Object.keys(o).sort()) r[k] = o[k]; return r; }
let shared; function env(light) { return (shared = shared || tagPage({ bundle: light })); }
