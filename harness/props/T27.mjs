import { bundleScript } from '../lib/build.mjs';
import { Visitor, settle, webFlag, pageObject, mutate } from '../lib/tagworld.mjs';
import { pagesArb, opArb, TriggerWorld, PATHS, SETTLE_MS } from '../lib/triggers.mjs';
import { evaluate, order } from '../lib/refeval.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const ORIGIN = 'https://www.example.com', OFF = 'off';
const MODES = ['window', 'storage', 'off', 'other'];
const activate = (v, w, mode) => { if (mode === 'window') w.__AMP_DEBUG = true; else if (mode === 'other') { w.__AMP_DEBUG = 'true'; v.local(ORIGIN).setItem('amp-ve-debug', '1'); } else if (mode === 'storage') v.local(ORIGIN).setItem('amp-ve-debug', 'true'); };
const on = (mode) => mode === 'window' || mode === 'storage';
const copy = (x) => JSON.parse(JSON.stringify(x));
// ---- pages -----------------------------------------------------------------------------------------
const urlHolds = (p, url) => !p.cond || p.cond.some((g) => g.every((c) => (c.op === 'does not contain' ? !url.toLowerCase().includes(c.v) : url.toLowerCase().includes(c.v))));
const CONFIG = {
  url_change: () => undefined, element_appeared: (v) => ({ selector: v.selector }), element_visible: (v) => ({ selector: v.selector, visibilityRatio: v.visibilityRatio ?? 0 }), manual: (v) => ({ name: v.name }), user_interaction: (v) => ({ selector: v.selector, interactionType: v.interactionType, minThresholdMs: v.minThresholdMs || 0 }),
  exit_intent: (v) => (v.minTimeOnPageMs === undefined ? {} : { minTimeOnPageMs: v.minTimeOnPageMs }), time_on_page: (v) => ({ durationMs: v.durationMs }), scrolled_to: (v) => (v.mode === 'percent' ? { mode: 'percent', percentage: v.percentage } : { mode: 'element', selector: v.selector, ...(v.offsetPx === undefined ? {} : { offsetPx: v.offsetPx }) }),
};
async function pages(c, ctx, { script }) {
  const v = new Visitor({ script });
  try {
    const FLAGS = ['f1', 'f2'].map((k) => webFlag(k, { on: [mutate([[k]])] }, 'on'));
    const w = new TriggerWorld(v, c.pages, { flags: FLAGS, path: c.path, initial: c.initial }); activate(v, w.w, c.mode); w.start(); const cl = w.page.client;
    const members = []; const join = () => { const s = { calls: [], in: true }; s.off = cl.addDebugStateSubscriber((state) => { if (!s.in) fail('a debug subscriber that left was called'); const now = copy(cl.getDebugState()); same(copy(state), now, 'state given to a debug subscriber, and the debug state at that moment,'); s.calls.push({ at: v.clock.now, state: copy(state) }); }); if (typeof s.off !== 'function') fail('no way to unsubscribe'); members.push(s); };
    await w.settled(); join(); let changedAt = 0; cl.addPageChangeSubscriber(() => { changedAt = v.clock.now; }); await w.rest(SETTLE_MS); let passes = 0, notified = 0, events = 0; let last = w.page.activePages(), lastUrl = w.url, pending = false;
    const check = (what) => {
      const state = copy(cl.getDebugState()); const active = w.expected(); same(w.page.activePages(), active, `active pages after ${what}`);
      if (state.currentUrl !== w.page.url) fail(`the debug state after ${what} names the URL ${state.currentUrl} at ${w.page.url}`);
      if (state.timestamp !== v.clock.now) fail(`the debug state of ${v.clock.now} is stamped ${state.timestamp}`);
      same(Object.keys(state.flags).sort(), ['f1', 'f2'], `flags of the debug state after ${what}`);
      for (const f of ['f1', 'f2']) {
        const d = state.flags[f]; const mine = c.pages.filter((p) => p.flag === f);
        if (d.isActive !== Boolean(active[f])) fail(`flag ${f} is said to be ${d.isActive ? 'active' : 'inactive'} with the pages ${show(active)} active after ${what}`);
        same(d.pageObjects.map((p) => p.id).sort(), mine.map((p) => p.id).sort(), `page objects of ${f} after ${what}`);
        for (const p of mine) {
          const g = d.pageObjects.find((x) => x.id === p.id); const isActive = (active[f] || []).includes(p.id); const say = `page ${show(p)} at ${w.url} after ${what}`;
          if (g.name !== `page ${p.id}` || g.trigger.type !== p.trigger.type) fail(`${say} is described as ${show(g)}`);
          if (g.urlConditionsPassed !== urlHolds(p, w.url)) fail(`${say}: URL conditions are said to have ${g.urlConditionsPassed ? 'passed' : 'failed'}`);
          const trig = ['exit_intent', 'analytics_event'].includes(p.trigger.type) ? (urlHolds(p, w.url) ? isActive : undefined) : w.satisfied(p);
          if (trig !== undefined && (g.triggerPassed !== trig || g.trigger.passed !== trig)) fail(`${say}: the trigger is said to have ${g.triggerPassed ? 'passed' : 'not passed'}: ${show(g)}`);
          if ((g.overallStatus === 'pass') !== isActive) fail(`${say}: status ${g.overallStatus} although the page is ${isActive ? 'active' : 'not active'}`);
          if (p.trigger.type === 'analytics_event') { if (!Array.isArray(g.trigger.config.conditions)) fail(`${say}: no conditions`); } else same(g.trigger.config, CONFIG[p.trigger.type](p.trigger.value), `settings of ${say}`);
          if (p.trigger.type === 'scrolled_to' && p.trigger.value.mode === 'percent' && g.trigger.currentPercentage !== w.m.scroll) fail(`${say}: scrolled to ${w.m.scroll} %, said to be ${g.trigger.currentPercentage}`);
          if (g.overallStatus === 'pass') passes++;
        }
      }
      same(state.visualEditor, { isActive: false, source: null, messengerState: 'not_started' }, 'visual editor part'); same(state.consent, { status: 'pending', required: false, started: true, startDeferred: false, impressionBuffers: [] }, 'consent part');
      const log = state.events; if (!on(c.mode) && log.length) fail(`events were recorded although debugging is off: ${show(log.slice(0, 3))}`);
      for (let i = 1; i < log.length; i++) if (log[i].timestamp < log[i - 1].timestamp) fail('recorded events are out of order');
      if (log.length && log[log.length - 1].timestamp > v.clock.now) fail('an event is recorded ahead of time');
      const now = w.page.activePages(); const pagesChanged = JSON.stringify(now) !== JSON.stringify(last), moved = lastUrl !== w.url; const quiet = v.clock.now - changedAt > 110; const fresh = log.slice(events); events = log.length;
      if (on(c.mode)) {
        for (const f of Object.keys(now)) for (const id of now[f]) if (!(last[f] || []).includes(id) && !fresh.some((e) => e.event === 'trigger_fired' && e.detail.includes(f) && e.detail.includes(`page ${id}`))) fail(`page ${id} of ${f} became active with ${what}, which is not recorded: ${show(fresh)}`);
        if (moved && !fresh.some((e) => e.event === 'url_change' && e.detail.includes(w.url))) fail(`the change to ${w.url} is not recorded: ${show(fresh)}`);
      }
      last = now; lastUrl = w.url; if (!quiet) { pending = pending || pagesChanged || moved; return; } const due = pagesChanged || moved || pending; pending = false;
      members.forEach((s, k) => {
        const calls = s.calls.splice(0); if (!s.in) return; if (!on(c.mode)) { if (calls.length) fail('a debug subscriber was called although debugging is off'); return; }
        for (let i = 1; i < calls.length; i++) if (calls[i].at - calls[i - 1].at < 50) fail(`debug subscriber ${k} was called twice within ${calls[i].at - calls[i - 1].at} ms`);
        if (s.before && due) {
          if (!calls.length) fail(`debug subscriber ${k} was not told of ${what} (pages ${show(now)} at ${w.url})`); const end = calls[calls.length - 1].state;
          if (end.currentUrl !== w.url) fail(`debug subscriber ${k} was last told of ${end.currentUrl} after ${what}`); for (const f of ['f1', 'f2']) same({ a: end.flags[f].isActive, p: end.flags[f].pageObjects.filter((p) => p.overallStatus === 'pass').map((p) => p.id).sort() }, { a: Boolean(now[f]), p: now[f] || [] }, `last state debug subscriber ${k} saw of ${f} after ${what}`); notified++;
        } s.before = true;
      });
    };
    check('load');
    for (const o of c.ops) {
      if (o.op === 'join') { join(); continue; } if (o.op === 'leave') { const s = members.filter((x) => x.in)[o.i]; if (s) { s.in = false; s.off(); } continue; }
      const burst = o.rest === false; await w.apply(o); if (!burst) { await w.rest(SETTLE_MS); check(show(o)); }
    }
    await w.settled(); await w.rest(SETTLE_MS); check('the last operations');
    ctx.nontrivial(passes > 0 && (notified > 0 || !on(c.mode))); ctx.cls('active', passes > 0); ctx.cls('notified', notified > 0); ctx.cls('debugging off', !on(c.mode));
  } finally { v.close(); await settle(1); }
}
// ---- flags -----------------------------------------------------------------------------------------
const KEYS = ['f1', 'f2', 'holdout-a', 'mutex-b', 'f3'];
const atomArb = (fc) => fc.oneof({ weight: 3, arbitrary: fc.record({ dep: fc.nat(9), not: fc.boolean() }) }, { weight: 2, arbitrary: fc.record({ plan: fc.constantFrom('gold', 'free') }) });
const segArb = (fc) => fc.record({ groups: fc.array(fc.array(atomArb(fc), { minLength: 1, maxLength: 3 }), { minLength: 1, maxLength: 2 }), variant: fc.constantFrom('x', 'x', 'y', 'off') });
const flagArb = (fc) => fc.record({ remote: fc.integer({ min: 0, max: 4 }).map((n) => n === 0), deps: fc.array(fc.nat(9), { maxLength: 3 }), segs: fc.array(segArb(fc), { minLength: 0, maxLength: 2 }), rest: fc.constantFrom('off', 'off', 'off', 'x', null), where: fc.constantFrom('all', 'all', 'none'), plain: fc.boolean() });
const specs = (c) => c.flags.map((f, i) => { const key = KEYS[(i + c.shift) % KEYS.length]; const before = c.flags.slice(0, i).map((_, j) => KEYS[(j + c.shift) % KEYS.length]); return { ...f, key, deps: before.length ? [...new Set(f.deps.map((d) => before[d % before.length]))] : [] }; });
const config = (s) => {
  const cond = (a) => (a.plan ? { op: 'is', selector: ['context', 'user', 'user_properties', 'plan'], values: [a.plan] } : { op: a.not ? 'is not' : 'is', selector: ['result', s.deps[a.dep % s.deps.length], 'key'], values: ['x'] });
  const segs = s.segs.map((g, i) => ({ groups: g.groups.map((l) => l.filter((a) => a.plan || s.deps.length)).filter((l) => l.length), variant: g.variant, i })).filter((g) => g.groups.length);
  const flag = webFlag(s.key, { x: [mutate([[s.key]])], y: [mutate([[s.key]])] }, undefined, { remote: s.remote, ...(s.deps.length ? { dependencies: s.deps } : {}), segments: [...segs.map((g) => ({ metadata: { segmentName: `Segment ${g.i}` }, conditions: g.groups.map((l) => l.map(cond)), variant: g.variant })), ...(s.rest ? [{ metadata: { segmentName: 'All Other Users' }, variant: s.rest }] : [])] }); if (s.plain) delete flag.variants.off.metadata; return flag;
};
async function flags(c, ctx, { script }) {
  const v = new Visitor({ script }); const list = specs(c); const keys = list.map((f) => f.key); let blocked = 0, offs = 0, remoteSeen = 0;
  try {
    const remote = new Set(list.filter((f) => f.remote).map((f) => f.key)); for (const f of list) if (f.deps.some((d) => remote.has(d))) remote.add(f.key);
    const page = v.open(`${ORIGIN}/a`, { server: (r) => (c.serverOk ? { status: 200, delay: 20, body: list.map(config).map((f) => ({ ...f, metadata: { ...f.metadata, evaluationMode: 'local' } })) } : { status: 500, delay: 20, body: 'x' }) });
    let user = {}; const set = (plan) => { user = plan ? { user_properties: { plan } } : {}; page.integrationUser = user; }; set(c.plans[0]); activate(v, page.window, c.mode);
    const served = list.map(config); if (c.reversed) served.reverse();
    page.start({ flags: served, pages: Object.fromEntries(list.map((f) => [f.key, { p: pageObject('p', { re: f.where === 'all' ? '.*' : '/nowhere' }) }])) });
    await v.clock.advance(150); const cl = page.client;
    for (const plan of c.plans) {
      set(plan); const memory = Object.fromEntries(served.map((f) => [f.key, f])); const ref = evaluate({ user }, order(memory, keys)); const shown = cl.getVariants(); const state = copy(cl.getDebugState());
      for (const k of Object.keys(state.flags)) if (!keys.includes(k)) fail(`the debug state has the unknown flag ${k}`);
      for (const f of list) {
        if (!state.flags[f.key]) { if (f.rest) fail(`flag ${f.key} is not in the debug state`); continue; }
        const d = state.flags[f.key], want = ref[f.key], def = memory[f.key]; const isOn = Boolean(want) && want.key !== OFF; const say = `flag ${show(def)} for ${show(user)}`;
        if (d.flagKey !== f.key) fail(`${say} is named ${d.flagKey}`); const direct = remote.has(f.key) && !c.serverOk; // then the variant is that of the bundled configuration
        if ((d.variant ? d.variant.key : null) !== (shown[f.key] && shown[f.key].key ? shown[f.key].key : null)) fail(`${say} is said to have variant ${show(d.variant)} but has ${show(shown[f.key])}`);
        if (d.variant && (d.variant.value !== shown[f.key].value)) fail(`${say}: value ${d.variant.value}`); if (d.variant) same(d.variant.metadata, copy(shown[f.key].metadata), `metadata of ${say}`);
        if (!direct && (d.variant ? d.variant.key : null) !== (want ? want.key : null)) fail(`${say} has variant ${show(d.variant)}, by reference ${show(want)}`);
        same(d.flagMetadata, def.metadata, `metadata of the configuration of ${say}`); if (d.isActive !== (f.where === 'all')) fail(`${say} is said to be ${d.isActive ? '' : 'in'}active`);
        if (direct && !d.variant !== !want) continue;
        const results = ref; const atom = (k) => (k.selector[0] === 'result' ? ((results[k.selector[1]] && results[k.selector[1]].key) === 'x') === (k.op === 'is') && (k.op === 'is' || results[k.selector[1]] !== undefined || true) : (user.user_properties && user.user_properties.plan) === k.values[0]);
        const first = def.segments.findIndex((g) => !g.conditions || g.conditions.some((l) => l.every(atom))); const before = first < 0 ? def.segments : def.segments.slice(0, first);
        if (!remote.has(f.key)) {
          const a = d.audienceEvaluation; if (!a) fail(`${say} has no audience evaluation`); if (a.matched !== Boolean(want)) fail(`${say}: audience ${a.matched ? 'matched' : 'not matched'}`); if (want && a.matchedSegment !== def.segments[first].metadata.segmentName) fail(`${say}: matched segment ${a.matchedSegment}`);
          if (a.steps.length !== def.segments.length) fail(`${say}: ${a.steps.length} steps`); a.steps.forEach((st, i) => { const g = def.segments[i]; if (st.matched !== (!g.conditions || g.conditions.some((l) => l.every(atom)))) fail(`${say}: step ${i} is ${st.matched ? '' : 'not '}matched`); });
        } else { remoteSeen++; if (d.variant && d.variant.metadata && d.variant.metadata.segmentName && (!d.audienceEvaluation || d.audienceEvaluation.matchedSegment !== d.variant.metadata.segmentName)) fail(`${say}: segment ${show(d.audienceEvaluation)}`); }
        if (!f.deps.length) { if (d.dependencies && d.dependencies.length) fail(`${say} has dependencies ${show(d.dependencies)}`); } else {
          same(d.dependencies.map((x) => x.flagKey), f.deps, `dependencies of ${say}`);
          for (const x of d.dependencies) {
            const type = x.flagKey.startsWith('holdout-') ? 'holdout' : x.flagKey.startsWith('mutex-') ? 'mutex' : 'prerequisite'; if (x.type !== type) fail(`${say}: ${x.flagKey} is called ${x.type}`);
            if (x.resolvedVariant !== (shown[x.flagKey] && shown[x.flagKey].key ? shown[x.flagKey].key : null)) fail(`${say}: ${x.flagKey} is said to be ${x.resolvedVariant}`);
            const of = (l) => l.filter((k) => k.selector[0] === 'result' && k.selector[1] === x.flagKey); const groups = before.flatMap((g) => g.conditions || []);
            const never = isOn || remote.has(f.key) || !groups.some((l) => of(l).some((k) => !atom(k))); const surely = !never && groups.some((l) => of(l).some((k) => !atom(k)) && l.every((k) => of(l).includes(k) || atom(k)));
            if (never && x.blocking) fail(`${say}: ${x.flagKey} is said to block it`); if (surely && !x.blocking) fail(`${say}: ${x.flagKey} is not said to block it`); if (surely) blocked++;
          }
        }
        const r = d.inactiveReason, shownOn = Boolean(d.variant) && d.variant.key !== OFF; if (shownOn !== (r === undefined)) fail(`${say} is ${shownOn ? 'on' : 'off'} for the reason ${r}`);
        if (r !== undefined) { offs++; const by = (d.dependencies || []).filter((x) => x.blocking).map((x) => x.flagKey); const named = KEYS.filter((k) => r.includes(`"${k}"`)); if (by.length ? !(named.length === 1 && by.includes(named[0])) : named.length) fail(`${say}: blocked by ${show(by)}, reason ${r}`); if (!by.length && d.audienceEvaluation && !d.audienceEvaluation.matched && !/audience/i.test(r)) fail(`${say}: not in the audience, reason ${r}`); }
      }
    }
    ctx.nontrivial(offs > 0 && list.some((f) => f.deps.length)); ctx.cls('blocked', blocked > 0); ctx.cls('off', offs > 0); ctx.cls('remote', remoteSeen > 0);
  } finally { v.close(); await settle(1); }
}
export default {
  id: 'T27', level: 'exploration',
  rule: 'pages: a page was active and, with debugging on, a subscriber was notified; flags: a flag with dependencies exists and a flag was off',
  assumptions: ['states are compared at rest', 'a dependency is judged only when the other conditions of its group hold'],
  async setup() { return { script: await bundleScript('tag') }; },
  parts: [
    { name: 'pages', what: 'debug state, recorded events and debug subscribers over histories of triggers and navigations', runs: { quick: 400, thorough: 12000 }, expect: { active: 0.4, notified: 0.2, 'debugging off': 0.2 },
      arb: (fc) => fc.record({ pages: pagesArb(fc), mode: fc.constantFrom('window', 'storage', 'window', ...MODES), path: fc.constantFrom(...PATHS), initial: fc.array(fc.record({ e: fc.integer({ min: 0, max: 4 }), wrap: fc.boolean(), hidden: fc.constantFrom('', '', 'display:none') }), { minLength: 1, maxLength: 4 }), ops: fc.array(fc.oneof({ weight: 10, arbitrary: opArb(fc) }, { weight: 1, arbitrary: fc.record({ op: fc.constantFrom('join', 'leave'), i: fc.nat(2) }) }), { minLength: 4, maxLength: 14, size: 'max' }) }), check: pages },
    { name: 'flags', what: 'variants, audiences, dependencies and reasons for generated flags and users', runs: { quick: 300, thorough: 10000 }, expect: { blocked: 0.1, off: 0.5, remote: 0.2 },
      arb: (fc) => fc.record({ flags: fc.array(flagArb(fc), { minLength: 2, maxLength: 4, size: 'max' }), shift: fc.nat(4), reversed: fc.boolean(), serverOk: fc.boolean(), mode: fc.constantFrom(...MODES), plans: fc.array(fc.constantFrom('gold', 'free', undefined), { minLength: 1, maxLength: 3 }) }), check: flags },
  ],
};
