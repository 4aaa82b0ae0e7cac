import { plainBundle } from '../lib/build.mjs';
import { same, fail, show } from '../lib/runner.mjs';
import * as ref from '../lib/refeval.mjs';
const MAXD = 42949673;
const wellFormed = (fc) => fc.oneof(fc.string({ maxLength: 40 }), fc.string({ unit: 'grapheme', maxLength: 12 }), fc.string({ unit: 'binary', maxLength: 24 }), fc.uuid(), fc.constantFrom('a', 'ab', 'abc', 'abcd', 'abcde', 'é', 'éa', '日', '日本', '😀', '😀a', 'a😀', '\u0000', '\u007f', '\u0080', '\u07ff', '\u0800', '\uffff', '\u{10ffff}'), fc.nat().map(String)).map((s) => s.toWellFormed());
const flagOf = (salt, allocations, extra = {}) => ({ key: 'f', variants: Object.fromEntries(['off', ...Array.from({ length: 6 }, (_, i) => 'v' + i)].map((k) => [k, { key: k }])), segments: [{ bucket: { selector: ['context', 'user', 'user_id'], salt, allocations }, variant: 'off', ...extra }] });
const run = (index, flag, user) => { const r = new index.EvaluationEngine().evaluate({ user }, [flag]).f; return r ? r.key : undefined; };
/** cut points -> half-open ranges covering [0,max) */
const tile = (max, cuts) => { const c = [...new Set([0, ...cuts.filter((x) => x > 0 && x < max), max])].sort((a, b) => a - b); return c.slice(0, -1).map((x, i) => [x, c[i + 1]]); };
export default {
  id: 'E03', level: 'exploration',
  rule: 'a case is non-trivial when the bucketing value is not plain ASCII or the user falls inside an allocation',
  assumptions: ['well-formed Unicode text for the hash equality; determinism is also checked on ill-formed text'],
  async setup() { return plainBundle('core'); },
  parts: [
    { name: 'hash', what: 'assigned bucket equals reference murmur3 of utf8("salt/value"), observed through point allocations', sync: true, runs: { quick: 15000, thorough: 500000 },
      arb: (fc) => fc.record({ salt: wellFormed(fc), value: wellFormed(fc).filter((s) => s.length > 0), off: fc.constantFrom(-1, 0, 1) }),
      check(c, ctx, { index, murmur3 }) {
        const h = ref.murmur3(`${c.salt}/${c.value}`), pct = h % 100, dist = Math.floor(h / 100);
        ctx.nontrivial(/[^\x20-\x7e]/.test(c.value + c.salt) || c.value.length > 4);
        ctx.cls('tail' + (Buffer.byteLength(`${c.salt}/${c.value}`) % 4));
        const exact = [{ range: [pct, pct + 1], distributions: [{ variant: 'v1', range: [dist, dist + 1] }] }];
        same(run(index, flagOf(c.salt, exact), { user_id: c.value }), 'v1', `user in exactly the bucket (${pct}, ${dist}) of ${show(`${c.salt}/${c.value}`)}`);
        const p2 = pct + c.off, d2 = dist + (c.off || 1);
        const shifted = [{ range: [p2, p2 + 1], distributions: [{ variant: 'v1', range: [d2, d2 + 1] }] }];
        same(run(index, flagOf(c.salt, shifted), { user_id: c.value }), 'off', 'user outside of a neighbouring bucket');
        const ends = [{ range: [pct, pct], distributions: [{ variant: 'v2', range: [0, MAXD] }] }, { range: [Math.max(0, pct - 3), pct], distributions: [{ variant: 'v3', range: [0, MAXD] }] }, { range: [pct + 1, 101], distributions: [{ variant: 'v3', range: [0, MAXD] }] }, { range: [0, 100], distributions: [{ variant: 'v4', range: [0, dist] }, { variant: 'v5', range: [dist, MAXD] }] }];
        same(run(index, flagOf(c.salt, ends), { user_id: c.value }), 'v5', 'half-open ranges: start included, end excluded');
      } },
    { name: 'partition', what: 'tilings assign every user exactly once, and as the reference says', sync: true, runs: { quick: 6000, thorough: 200000 },
      arb: (fc) => fc.record({ salt: wellFormed(fc), value: wellFormed(fc).filter((s) => s.length > 0), acuts: fc.array(fc.integer({ min: 0, max: 100 }), { maxLength: 3 }), dcuts: fc.array(fc.integer({ min: 0, max: MAXD }), { maxLength: 5 }) }),
      check(c, ctx, { index }) {
        const ar = tile(100, c.acuts), dr = tile(MAXD, c.dcuts);
        const allocations = ar.map((range) => ({ range, distributions: dr.map((d, i) => ({ range: d, variant: 'v' + i })) }));
        const got = run(index, flagOf(c.salt, allocations), { user_id: c.value });
        const h = ref.murmur3(`${c.salt}/${c.value}`), dist = Math.floor(h / 100);
        const i = dr.findIndex(([a, b]) => a <= dist && dist < b);
        ctx.nontrivial(dr.length > 1); ctx.cls('variants' + dr.length);
        same(got, 'v' + i, 'variant by distribution under a full allocation');
        // the allocation layout does not matter for who gets which variant
        same(run(index, flagOf(c.salt, [...allocations].reverse()), { user_id: c.value }), got, 'variant after reordering allocations');
      } },
    { name: 'stability', what: 'only salt and bucketing value matter; widening an allocation keeps earlier users', sync: true, runs: { quick: 6000, thorough: 200000 },
      arb: (fc) => fc.record({ salt: wellFormed(fc), value: fc.oneof(fc.string(), fc.string({ unit: 'binary' }), fc.constantFrom('\ud800', 'a\udc00', '\ud83d'), fc.integer(), fc.boolean()), lo: fc.integer({ min: 0, max: 100 }), w1: fc.integer({ min: 0, max: 100 }), w2: fc.integer({ min: 0, max: 100 }), dcuts: fc.array(fc.integer({ min: 0, max: MAXD }), { maxLength: 4 }), other: fc.dictionary(fc.constantFrom('device_id', 'country', 'city'), fc.string()) }),
      check(c, ctx, { index }) {
        const dists = tile(MAXD, c.dcuts).map((d, i) => ({ range: d, variant: 'v' + i }));
        const mk = (w) => flagOf(c.salt, [{ range: [c.lo, Math.min(100, c.lo + w)], distributions: dists }]);
        const a = run(index, mk(c.w1), { user_id: c.value });
        const b = run(index, mk(c.w1 + c.w2), { user_id: c.value });
        ctx.nontrivial(a !== 'off'); ctx.cls('allocated', a !== 'off'); ctx.cls('newlyAllocated', a === 'off' && b !== 'off');
        if (a !== 'off') same(b, a, 'variant after widening the allocation');
        same(run(index, mk(c.w1), { ...c.other, user_id: c.value }), a, 'variant after changing unrelated attributes');
        same(run(index, mk(c.w1), { user_id: String(c.value) }), a, 'variant for the text of the bucketing value');
        const g = { ...mk(c.w1), key: 'g' };
        const both = new index.EvaluationEngine().evaluate({ user: { user_id: c.value } }, [g, mk(c.w1)]);
        same(both.g.key, both.f.key, 'variants of two flags with the same salt');
      } },
    { name: 'uniformity', what: 'allocation share and distribution share of many users are within loose statistical bounds', sync: true, runs: { quick: 20, thorough: 300 },
      arb: (fc) => fc.record({ salt: fc.string({ minLength: 1, maxLength: 8 }), pct: fc.integer({ min: 10, max: 90 }), k: fc.integer({ min: 2, max: 4 }) }),
      check(c, ctx, { index }) {
        const n = 2000; const step = Math.floor(MAXD / c.k);
        const f = flagOf(c.salt, [{ range: [0, c.pct], distributions: Array.from({ length: c.k }, (_, i) => ({ variant: 'v' + i, range: [i * step, i === c.k - 1 ? MAXD : (i + 1) * step] })) }]);
        const e = new index.EvaluationEngine(); const counts = {};
        for (let i = 0; i < n; i++) { const r = e.evaluate({ user: { user_id: 'user-' + i } }, [f]).f.key; counts[r] = (counts[r] || 0) + 1; }
        ctx.nontrivial(true);
        const alloc = n - (counts.off || 0); const exp = (n * c.pct) / 100;
        if (Math.abs(alloc - exp) > 7 * Math.sqrt(n * 0.25)) fail(`allocated ${alloc} of ${n} users at ${c.pct}%`);
        for (let i = 0; i < c.k; i++) { const x = counts['v' + i] || 0, m = alloc / c.k; if (Math.abs(x - m) > 7 * Math.sqrt(m) + 5) fail(`variant v${i} got ${x}, expected about ${m}`); }
      } },
  ],
};
