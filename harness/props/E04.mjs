import { plainBundle } from '../lib/build.mjs';
import { same, fail, show, deq } from '../lib/runner.mjs';
import * as ref from '../lib/refeval.mjs';
const KEYS = Array.from({ length: 8 }, (_, i) => 'k' + i);
// names a plain object seems to have
const ODD = ['constructor', 'toString', 'hasOwnProperty'];
const mk = (edges, keys) => Object.fromEntries(keys.map((k) => { const d = edges.filter((e) => e[0] === k).map((e) => e[1]); const f = { key: k, variants: {}, segments: [] }; if (d.length || edges.length % 2) f.dependencies = d; return [k, f]; }));
export default {
  id: 'E04', level: 'exploration',
  rule: 'a case is non-trivial when the requested part of the graph contains at least two dependency edges between existing flags',
  async setup() { return plainBundle('core'); },
  parts: [
    { name: 'order', what: 'random graphs (cyclic, dangling, diamond) x requested subsets x listing orders', sync: true, runs: { quick: 20000, thorough: 800000 },
      expect: { cyclic: 0.08, diamond: 0.1, dangling: 0.2, subset: 0.3 },
      arb: (fc) => fc.record({
        keys: fc.oneof({ weight: 4, arbitrary: fc.shuffledSubarray(KEYS, { minLength: 5 }) }, { weight: 4, arbitrary: fc.shuffledSubarray(KEYS, { minLength: 1 }) }, { weight: 1, arbitrary: fc.shuffledSubarray([...KEYS, ...ODD], { minLength: 5 }) }),
        // mostly forward edges (acyclic) with occasional arbitrary ones
        edges: fc.array(fc.oneof({ weight: 6, arbitrary: fc.tuple(fc.nat(7), fc.nat(7)).filter(([a, b]) => a !== b).map(([a, b]) => ['k' + Math.max(a, b), 'k' + Math.min(a, b)]) }, { weight: 1, arbitrary: fc.tuple(fc.nat(7), fc.nat(7)).map(([a, b]) => ['k' + a, 'k' + b]) }), { maxLength: 16, size: 'max' }).chain((es) => fc.option(fc.tuple(fc.nat(7), fc.constantFrom(...ODD)), { nil: null, freq: 3 }).map((o) => (o ? [...es, ['k' + o[0], o[1]]] : es))),
        req: fc.option(fc.shuffledSubarray([...KEYS, 'nope', ...ODD]), { nil: undefined }),
      }),
      check(c, ctx, { index }) {
        const flags = mk(c.edges, c.keys);
        const req = c.req === undefined ? Object.keys(flags) : c.req;
        const cyc = ref.hasCycle(flags, req);
        const clos = ref.closure(flags, req);
        const inner = c.edges.filter(([a, b]) => clos.has(a) && clos.has(b));
        const indeg = {}; inner.forEach(([, b]) => { indeg[b] = (indeg[b] || 0) + 1; });
        ctx.cls('cyclic', cyc); ctx.cls('diamond', Object.values(indeg).some((n) => n > 1)); ctx.cls('dangling', c.edges.some(([a, b]) => clos.has(a) && !Object.keys(flags).includes(b))); ctx.cls('subset', clos.size < c.keys.length);
        ctx.nontrivial(inner.length >= 2);
        const before = JSON.stringify(flags);
        let out, err;
        try { out = c.req === undefined ? index.topologicalSort(flags) : index.topologicalSort(flags, c.req); } catch (e) { err = e; }
        same(JSON.stringify(flags), before, 'flags after sorting');
        if (cyc) { if (!err) fail(`cycle not reported, returned ${show(out.map((f) => f.key))}`); return; }
        if (err) fail(`acyclic flags rejected: ${err.message}`);
        const keys = out.map((f) => f.key);
        same([...keys].sort(), [...clos].sort(), 'flags in the order');
        const pos = Object.fromEntries(keys.map((k, i) => [k, i]));
        for (const [a, b] of inner) if (!(pos[b] < pos[a])) fail(`${a} depends on ${b} but order is ${keys}`);
        out.forEach((f) => { if (f !== flags[f.key]) fail('order holds a different flag object'); });
      } },
    { name: 'subset-evaluation', what: 'evaluating a requested subset gives the same variants as evaluating everything', sync: true, runs: { quick: 5000, thorough: 200000 },
      arb: (fc) => fc.record({
        n: fc.integer({ min: 2, max: 7 }),
        deps: fc.array(fc.tuple(fc.nat(6), fc.nat(6)), { maxLength: 8 }), on: fc.array(fc.boolean(), { minLength: 7, maxLength: 7 }), order: fc.shuffledSubarray(KEYS, { minLength: 8 }), req: fc.shuffledSubarray(KEYS, { minLength: 1, maxLength: 3 }),
      }),
      check(c, ctx, { index }) {
        const flags = {};
        for (const k of c.order) {
          const i = Number(k.slice(1)); if (i >= c.n) continue;
          const deps = [...new Set(c.deps.filter(([a, b]) => Math.max(a, b) === i && a !== b).map(([a, b]) => 'k' + Math.min(a, b)))];
          const cond = deps.map((d) => ({ selector: ['result', d, 'key'], op: 'is', values: ['on'] }));
          flags[k] = { key: k, dependencies: deps, variants: { on: { key: 'on' }, off: { key: 'off' } }, segments: [{ conditions: [cond], variant: c.on[i] ? 'on' : 'off' }, { variant: 'off' }] };
        }
        const e = new index.EvaluationEngine();
        const all = e.evaluate({ user: {} }, index.topologicalSort(flags));
        // reference by recursion
        const val = (k) => { const i = Number(k.slice(1)); return c.on[i] && flags[k].dependencies.every((d) => !flags[d] || val(d) === 'on') && flags[k].dependencies.every((d) => flags[d]) ? 'on' : 'off'; };
        for (const k of Object.keys(flags)) same(all[k] && all[k].key, val(k), `variant of ${k}`);
        const req = c.req.filter((k) => flags[k]);
        const part = e.evaluate({ user: {} }, index.topologicalSort(flags, req));
        ctx.nontrivial(req.some((k) => flags[k].dependencies.length > 0));
        for (const k of Object.keys(part)) same(part[k], all[k], `variant of ${k} when only ${req} are requested`);
        for (const k of req) if (!part[k]) fail(`requested flag ${k} not evaluated`);
      } },
  ],
};
