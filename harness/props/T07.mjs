import { bundleScript } from '../lib/build.mjs';
import { Visitor, settle } from '../lib/tagworld.mjs';
import { EffectWorld, effectCase, wanted, FLAGS } from '../lib/effects.mjs';
import { same, fail, show, deq } from '../lib/runner.mjs';
const ops = (what) => `the effects in place after ${what}`;
function matches(got, want) { return deq(got.mutations, want.mutations) && deq(got.sheets, want.sheets) && deq(got.scripts, want.scripts) && deq(got.made, want.made); }
async function body(c, ctx, { script }) {
  const v = new Visitor({ script });
  try {
    const w = new EffectWorld(v, c); w.start();
    // applied[f]: set of variants (null: none) the flag may have applied
    let applied = Object.fromEntries(FLAGS.map((f) => [f, new Set([w.user[f]])])); let pages = {}; let navs = w.navs; let injected = new Map(); const burst = []; let live = 0, gone = 0, reverted = 0, before = 0;
    const cover = (f, definite) => { const n = w.user[f]; if (definite) applied[f] = new Set([n]); else applied[f].add(n); };
    const check = (what, again) => {
      const now = w.expected(); same(w.page.activePages(), now, `active pages after ${what}`);
      const nav = w.navs !== navs; for (const f of FLAGS) { const own = JSON.stringify(now[f] || []) !== JSON.stringify(pages[f] || []); if (nav || own) cover(f, true); else if (burst.length) cover(f, false); }
      const got = w.observed(); const choices = FLAGS.map((f) => [...applied[f]]); let ok = null, first = null;
      for (const x of choices[0]) for (const y of choices[1]) for (const z of choices[2]) { const a = { f1: x, f2: y, f3: z }; const want = wanted(w, a, now); first = first || want; if (!ok && matches(got, want)) ok = [a, want]; }
      if (!ok) { for (const k of ['mutations', 'sheets', 'scripts', 'made']) same(got[k], first[k], `${ops(what)}: ${k} (pages ${show(now)}, variants ${show(Object.fromEntries(FLAGS.map((f) => [f, choices[FLAGS.indexOf(f)]])))})`); fail(`no allowed combination of variants matches ${show(got)}`); }
      const [a, want] = ok; const want2 = want;
      if (FLAGS.every((f) => applied[f].size === 1)) { const l = w.page.client.getActiveExperiments().slice().sort(); same(l, want2.experiments, `getActiveExperiments after ${what}`); }
      for (const f of FLAGS) { const same_ = [...applied[f]].filter((x) => deq(w.effects(f, x, now).map((e) => e.id), w.effects(f, a[f], now).map((e) => e.id))); applied[f] = new Set(same_); }
      // every injection in effect ran once more than it was removed; others as often
      for (const key of Object.keys(w.actions)) for (const act of w.actions[key]) if (act.t === 'inject' && act.spec.js) {
        const r = got.runs[act.id] || { run: 0, rm: 0 }; const on = want.live.has(act.id);
        if (r.run - r.rm !== (on ? 1 : 0)) fail(`${ops(what)}: injection ${act.id} ran ${r.run} times and was removed ${r.rm} times, ${on ? 'in effect' : 'not in effect'}`);
        const old = injected.get(act.id); if (old && old.on && on && !nav && !again && burst.length === 0 && r.run !== old.run) fail(`${ops(what)}: injection ${act.id} in effect was run again`);
        injected.set(act.id, { on, run: r.run });
      }
      const n = want.mutations.length + want.live.size; live += n > before ? 1 : 0; gone += n < before ? 1 : 0; before = n;
      pages = now; navs = w.navs; burst.length = 0;
    };
    const early = c.ops.slice(0, c.early).filter((o) => ['manual', 'event', 'click', 'nav'].includes(o.op));
    for (const o of early) { await w.step({ ...o, gap: o.gap ?? 2 }); burst.push(o); }
    await w.calm(); for (const f of FLAGS) applied[f] = new Set([w.user[f]]); check(early.length ? `load with ${show(early)}` : 'load');
    let quiet = false;
    for (const o of c.ops.slice(c.early)) {
      if (['user', 'preview', 'revert', 'tamper'].includes(o.op) && burst.length) { await w.calm(); check(show(burst)); }
      if (o.op === 'user') { if (o.apply) for (const f of FLAGS) applied[f] = new Set([o.user[f]]); else for (const f of FLAGS) applied[f] = applied[f]; }
      if (o.op === 'apply') for (const f of o.flags || FLAGS) cover(f, true);
      if (o.op === 'revert') { reverted++; for (const f of o.flags || FLAGS) applied[f] = new Set([null]); }
      if (o.op === 'preview') for (const f of Object.keys(o.map)) applied[f] = new Set([o.map[f] === 'nope' || o.map[f] === 'off' ? null : o.map[f]]);
      const what = show([...burst, o]);
      const rest = await w.step(o); if (!['user', 'apply', 'revert', 'preview', 'tamper'].includes(o.op) || !rest) burst.push(o);
      if (rest) check(what, o.op === 'preview');
    }
    if (burst.length) { await w.calm(); check(show(burst)); }
    await v.clock.advance(1000); await w.calm(); // pending triggers fire
    // reverting everything restores the page
    w.page.client.revertVariants(); await w.calm(); const end = w.observed();
    same([end.mutations, end.sheets, end.scripts, end.made], [[], [], [], []], 'what is left after reverting every variant');
    ctx.nontrivial(live > 0 && gone > 0); ctx.cls('appeared', live > 1); ctx.cls('disappeared', gone > 0); ctx.cls('reverted', reverted > 0); ctx.cls('injected', injected.size > 0 && [...injected.values()].some((x) => x.run > 0)); ctx.cls('rerun', [...injected.values()].some((x) => x.run > 1));
  } finally { v.close(); await settle(1); }
}
export default {
  id: 'T07', level: 'exploration',
  rule: 'a case is non-trivial when effects came into place and were taken back later',
  assumptions: ['dom-mutator, which is not part of the repository, applies and reverts a declarative mutation as it says (a recording stand-in is used)', 'injection ids are unique', 'one mutate action per variant'],
  async setup() { return { script: await bundleScript('tag') }; },
  parts: [
    { name: 'histories', what: 'triggers, navigations, user changes, apply/revert/preview calls, bursts', runs: { quick: 800, thorough: 20000 }, expect: { appeared: 0.3, disappeared: 0.4, injected: 0.4, rerun: 0.2 },
      arb: (fc) => effectCase(fc, { api: ['user', 'user', 'apply', 'apply', 'revert', 'revert', 'preview', 'tamper'] }), check: body },
    { name: 'pages', what: 'triggers and navigations only', runs: { quick: 400, thorough: 10000 }, expect: { appeared: 0.15, disappeared: 0.2 },
      arb: (fc) => effectCase(fc, { api: ['tamper'], apiWeight: 1, maxOps: 20 }), check: body },
  ],
};
