import { bundleScript } from '../lib/build.mjs';
import { Visitor, settle } from '../lib/tagworld.mjs';
import { EffectWorld, effectCase, base, FLAGS } from '../lib/effects.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const shown = (v) => (v === 'off' ? undefined : v);
async function body(c, ctx, { script }) {
  const v = new Visitor({ script });
  try {
    const w = new EffectWorld(v, c);
    // last[f]: the variant last reported during this visit of the base URL
    let last = {}, unsure = new Set(), visit = base(w.url), from = 0, total = 0, again = 0, visits = 0, switched = 0, hidden = 0; let may = []; let maybeNew = false;
    const note = () => { const p = w.expected(); for (const f of FLAGS) if (w.eligible(f, w.user[f], p)) may.push(`${base(w.url)} ${f} ${w.user[f]}`); if (base(w.url) !== visit) maybeNew = true; };
    const check = (what) => {
      note(); const now = w.expected(); same(w.page.activePages(), now, `active pages after ${what}`);
      const got = w.page.impressions().slice(from); from += got.length; total += got.length; const b = base(w.url);
      for (const g of w.page.tracked.slice(-got.length || Infinity)) if (g.event.eventType !== '$impression') fail(`an event of type ${g.event.eventType} was reported after ${what}`);
      for (const g of w.page.tracked.slice(w.page.tracked.length - got.length)) if (g.url.split('?')[0] !== g.event.eventProperties.metadata.url) fail(`the impression ${show(g.event)} at ${g.url} names the URL ${g.event.eventProperties.metadata.url}`);
      const fresh = b !== visit; if (fresh) { last = {}; unsure.clear(); visits++; } else if (maybeNew) FLAGS.forEach((f) => unsure.add(f)); // left and came back unobserved
      for (const f of FLAGS) {
        const cur = w.user[f]; const on = w.eligible(f, cur, now); const here = got.filter((g) => g.flag === f && base(g.url) === b); const mine = here.filter((g) => g.variant === shown(cur));
        if (!on) hidden++;
        const required = on && last[f] !== cur && !(unsure.has(f) && last[f] === cur); const allowed = may.includes(`${b} ${f} ${cur}`) && (last[f] !== cur || unsure.has(f) || maybeNew);
        if (required && mine.length !== 1 && !(maybeNew && mine.length > 1)) fail(`flag ${f} with variant ${cur}, active at ${b} (pages ${show(now)}), was reported ${mine.length} times instead of once after ${what}: ${show(got)}`);
        if (mine.length && !allowed) fail(`flag ${f} with variant ${cur} was reported at ${b} although ${on ? 'it was reported before during this visit' : 'it is not active'} after ${what} (pages ${show(now)}): ${show(got)}`);
        if (mine.length > 1 && !maybeNew) fail(`flag ${f} was reported ${mine.length} times after ${what}`);
        if (mine.length) { if (last[f] !== undefined) switched++; last[f] = cur; if (!maybeNew) unsure.delete(f); again += visits > 0 ? 1 : 0; }
        for (const g of got) if (g.flag === f && (!may.includes(`${base(g.url)} ${f} ${cur}`) || g.variant !== shown(cur))) fail(`unexpected impression ${show(g)} after ${what} (variant ${cur}, pages ${show(now)})`);
      }
      for (const g of got) if (!FLAGS.includes(g.flag)) fail(`impression of unknown flag ${g.flag}`);
      visit = b; may = []; maybeNew = false;
    };
    w.start(); note(); const early = c.ops.slice(0, c.early).filter((o) => ['manual', 'event', 'click', 'nav'].includes(o.op)); let burst = [];
    for (const o of early) { await w.step({ ...o, gap: o.gap ?? 2 }); note(); burst.push(o); }
    await w.calm(); check('load'); burst = [];
    for (const o of c.ops.slice(c.early)) {
      if (o.op === 'user' && burst.length) { await w.calm(); check(show(burst)); burst = []; }
      burst.push(o); const rest = await w.step(o); note();
      if (rest) { check(show(burst)); burst = []; }
    }
    if (burst.length) { await w.calm(); check(show(burst)); }
    ctx.nontrivial(total > 1 && (again > 0 || switched > 0)); ctx.cls('reported', total > 0); ctx.cls('new visit', again > 0); ctx.cls('variant changed', switched > 0);
  } finally { v.close(); await settle(1); }
}
export default {
  id: 'T20', level: 'exploration',
  rule: 'a case is non-trivial when at least two impressions were reported, one of them on a later visit or after the variant changed',
  assumptions: ['the integration accepts events', 'changes of the user are followed by an application of the variants'],
  async setup() { return { script: await bundleScript('tag') }; },
  parts: [
    { name: 'histories', what: 'triggers, navigations, user changes, apply and revert calls, bursts', runs: { quick: 800, thorough: 20000 }, expect: { reported: 0.6, 'new visit': 0.3, 'variant changed': 0.2 },
      arb: (fc) => effectCase(fc, { api: ['userApply', 'userApply', 'apply', 'revert'] }), check: body },
    { name: 'pages', what: 'triggers and navigations only', runs: { quick: 400, thorough: 10000 }, expect: { reported: 0.6, 'new visit': 0.3 },
      arb: (fc) => effectCase(fc, { api: ['apply'], apiWeight: 1, maxOps: 20 }), check: body },
  ],
};
