import vm from 'vm';
import { plainBundle } from '../lib/build.mjs';
import { same, fail, show } from '../lib/runner.mjs';
import * as ref from '../lib/refeval.mjs';
import { engineMatch } from './E02.mjs';
const comp = (fc) => fc.oneof({ weight: 5, arbitrary: fc.nat(12) }, { weight: 1, arbitrary: fc.nat(100000) }, { weight: 1, arbitrary: fc.oneof(fc.integer({ min: 2 ** 31 - 2, max: 2 ** 31 + 2 }), fc.integer({ min: 2 ** 32 - 2, max: 2 ** 32 + 2 }), fc.integer({ min: 2 ** 40, max: 2 ** 53 - 1 })) }).chain((n) => fc.constantFrom('', '', '', '0').map((z) => z + n));
const pre = (fc) => fc.option(fc.oneof(fc.constantFrom('-alpha', '-beta', '-rc.1', '-rc.2', '-1', '-a.', '-A', '-alpha-1', '-_x'), fc.string({ unit: fc.constantFrom('a', 'b', '1', '-', '.', 'Z'), minLength: 1, maxLength: 4 }).map((s) => '-' + s)), { nil: '', freq: 2 });
const good = (fc) => fc.tuple(comp(fc), comp(fc), fc.option(comp(fc), { nil: null }), pre(fc)).map(([a, b, c, p]) => (c === null ? `${a}.${b}` : `${a}.${b}.${c}${p}`)).filter((s) => ref.parseVersion(s));
const bad = (fc) => fc.oneof(fc.constantFrom('', '1', 'v1.2.3', '1.2.3.4', '1.2-alpha', '1.2.', 'abc', '1.a', '1.2.3+build', ' 1.2.3', '1.2.3 ', '1.2.3\n', 'x\n1.2.3', '1.2\n9.9', '1.2.3-a\nb', '-1.2', '1,2', '１.２'), fc.string({ maxLength: 5 }), fc.string({ unit: fc.constantFrom('1', '2', '.', '-', 'a'), maxLength: 7 })).filter((s) => !ref.parseVersion(s) && !s.startsWith('['));
const OPS = ['version less', 'version less or equal', 'version greater', 'version greater or equal'];
export default {
  id: 'E05', level: 'exploration',
  rule: 'a case is non-trivial when at least two of its strings are versions',
  assumptions: ['components below 2^53'],
  async setup() { return plainBundle('core'); },
  parts: [
    { name: 'order', what: 'pairs and triples of versions: agreement with component comparison, consistency of the four relations, transitivity', sync: true, runs: { quick: 15000, thorough: 500000 },
      arb: (fc) => fc.tuple(good(fc), good(fc), good(fc), fc.boolean()).map(([a, b, c, eq]) => ({ a, b: eq ? a : b, c })).chain((t) => fc.oneof({ weight: 4, arbitrary: fc.constant(t) }, { weight: 2, arbitrary: fc.tuple(fc.constantFrom(...['0', '1', '2']), pre(fc)).map(([p, q]) => ({ ...t, b: t.a.split('-')[0].split('.').slice(0, 2).join('.') + '.' + p + q })).filter((x) => ref.parseVersion(x.b)) })),
      expect: { equal: 0.1, prerelease: 0.2 },
      check({ a, b, c }, ctx, { index }) {
        const m = (op, x, y) => engineMatch(index, op, [y], x);
        const cm = ref.cmpVersion(ref.parseVersion(a), ref.parseVersion(b));
        ctx.nontrivial(true); ctx.cls('equal', cm === 0); ctx.cls('prerelease', /-/.test(a + b));
        const [lt, le, gt, ge] = OPS.map((op) => m(op, a, b));
        same([lt, le, gt, ge], [cm < 0, cm <= 0, cm > 0, cm >= 0], `relations of ${a} to ${b}`);
        same(m('version greater', b, a), lt, `${b} > ${a} vs ${a} < ${b}`);
        same(m('version greater or equal', b, a), le, `${b} >= ${a} vs ${a} <= ${b}`);
        if (le && m('version less or equal', b, c) && !m('version less or equal', a, c)) fail(`not transitive: ${a} <= ${b} <= ${c}`);
        same(m('version less or equal', a, a), true, 'reflexivity'); same(m('version less', a, a), false, 'irreflexivity');
      } },
    { name: 'malformed', what: 'non-versions fall back to text comparison and never throw', sync: true, runs: { quick: 10000, thorough: 300000 },
      arb: (fc) => fc.record({ x: fc.oneof(good(fc), bad(fc)), ys: fc.array(fc.oneof(good(fc), bad(fc)), { minLength: 1, maxLength: 3 }), op: fc.constantFrom(...OPS) }),
      check({ x, ys, op }, ctx, { index }) {
        const want = ref.conditionMatches(x, op, ys);
        ctx.nontrivial([x, ...ys].filter((v) => ref.parseVersion(v)).length >= 2);
        ctx.cls('badProperty', !ref.parseVersion(x)); ctx.cls('someBadFilter', ys.some((y) => !ref.parseVersion(y)));
        same(engineMatch(index, op, ys, x), want, `${show(x)} "${op}" ${show(ys)}`);
      } },
    { name: 'bounded', what: 'long version-like values are decided at once (a time limit three orders of magnitude above the normal cost interrupts the evaluation)', sync: true, shrink: 6, runs: { quick: 400, thorough: 4000 },
      arb: (fc) => fc.record({ seps: fc.array(fc.constantFrom('', '', '', '.', '-', '_'), { minLength: 1, maxLength: 5 }), len: fc.integer({ min: 5, max: 12 }), ch: fc.constantFrom('a', '0', 'f', 'Z'), head: fc.constantFrom('1.2.3-', '1.2-', '1.2.3', '1.', '10.20.30-rc.'), tail: fc.constantFrom('', '+build', '!', '..', '.', ' ', '/'), op: fc.constantFrom(...OPS), side: fc.boolean() }),
      check(c, ctx, { index }) {
        const v = c.head + c.seps.map((s) => c.ch.repeat(c.len) + s).join('') + c.tail; const [x, y] = c.side ? [v, '1.2.4'] : ['1.2.4', v];
        ctx.nontrivial(v.length > 30); let got;
        globalThis.__e05 = () => { got = engineMatch(index, c.op, [y], x); };
        try { vm.runInThisContext('__e05()', { timeout: 3000 }); } catch (e) { if (e.code === 'ERR_SCRIPT_EXECUTION_TIMEOUT') fail(`comparing ${show(x)} with ${show(y)} takes more than 3 s`); throw e; } finally { delete globalThis.__e05; }
        same(got, ref.conditionMatches(x, c.op, [y]), `${show(x)} "${c.op}" ${show(y)}`);
      } },
  ],
};
