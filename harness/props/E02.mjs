import { plainBundle } from '../lib/build.mjs';
import { same, fail, show } from '../lib/runner.mjs';
import * as ref from '../lib/refeval.mjs';
import * as gen from '../lib/geneval.mjs';
export function engineMatch(index, op, values, value) {
  const flags = [{ key: 'f', variants: { on: { key: 'on' } }, segments: [{ conditions: [[{ selector: ['context', 'user', 'p'], op, values }]], variant: 'on' }] }];
  return Boolean(new index.EvaluationEngine().evaluate({ user: { p: value } }, flags).f);
}
const COMPLEMENT = { is: 'is not', contains: 'does not contain', 'regex match': 'regex does not match', 'set is': 'set is not', 'set contains': 'set does not contain', 'set contains any': 'set does not contain any' };
export default {
  id: 'E02', level: 'exploration',
  rule: 'a case is non-trivial when the property is present and either the condition matches or a value shares text with a filter value',
  assumptions: ['regular expressions are valid', 'filter values are distinct ignoring letter case for set operators', 'reference operators in harness/lib/refeval.mjs'],
  async setup() { return plainBundle('core'); },
  parts: [
    { name: 'differential', what: 'single condition vs reference operator semantics', sync: true, runs: { quick: 60000, thorough: 2000000 },
      arb: () => gen.conditionCase(),
      expect: { match: 0.25, list: 0.15, absent: 0.01 },
      check(c, ctx, { index }) {
        const want = ref.conditionMatches(c.value, c.op, c.values);
        const got = engineMatch(index, c.op, c.values, c.value);
        ctx.cls(`op ${c.op} ${want ? 'yes' : 'no'}`);
        ctx.cls('match', want); ctx.cls('list', Array.isArray(c.value) || (typeof c.value === 'string' && c.value[0] === '[')); ctx.cls('absent', c.value === undefined || c.value === null);
        ctx.nontrivial(c.value !== undefined && c.value !== null && (want || c.values.some((v) => String(c.value).includes(v))));
        if (got !== want) fail(`property ${show(c.value)} "${c.op}" ${show(c.values)}: engine says ${got}, expected ${want}`);
      } },
    { name: 'complement', what: 'negated operators complement the positive ones on present scalars and, for set operators, on lists', sync: true, runs: { quick: 10000, thorough: 300000 },
      arb: (fc) => fc.constantFrom(...Object.keys(COMPLEMENT)).chain((op) => gen.condValues(op).chain((values) => (op.startsWith('set') ? gen.listValue() : fc.oneof(gen.scalar(), values.length ? fc.constantFrom(...values) : gen.scalar())).map((value) => ({ op, values, value })))),
      check(c, ctx, { index }) {
        if (!c.op.startsWith('set') && String(c.value).startsWith('[')) return;
        const p = engineMatch(index, c.op, c.values, c.value), n = engineMatch(index, COMPLEMENT[c.op], c.values, c.value);
        ctx.nontrivial(p);
        if (p === n) fail(`"${c.op}" and "${COMPLEMENT[c.op]}" both ${p} for ${show(c.value)} / ${show(c.values)}`);
      } },
    { name: 'representation', what: 'a list and its JSON text, and a scalar and its text, target alike', sync: true, runs: { quick: 10000, thorough: 300000 },
      arb: (fc) => fc.record({ op: fc.constantFrom(...gen.OPS), list: fc.array(fc.oneof(gen.anyText(), fc.boolean(), fc.integer({ min: -5, max: 50 })), { maxLength: 4 }) }).chain((r) => gen.condValues(r.op).map((values) => ({ ...r, values }))),
      check(c, ctx, { index }) {
        const a = engineMatch(index, c.op, c.values, c.list), b = engineMatch(index, c.op, c.values, JSON.stringify(c.list));
        ctx.nontrivial(c.list.length > 1);
        same(b, a, `"${c.op}" ${show(c.values)} on the JSON text of ${show(c.list)}`);
        const sh = [...c.list].reverse();
        same(engineMatch(index, c.op, c.values, sh), a, `"${c.op}" ${show(c.values)} on a reordered list`);
        if (c.list.length) {
          const s = c.list[0];
          same(engineMatch(index, c.op, c.values, String(s)), engineMatch(index, c.op, c.values, s), `"${c.op}" on the text of ${show(s)}`);
        }
      } },
    { name: 'groups', what: 'condition groups combine as OR of ANDs', sync: true, runs: { quick: 5000, thorough: 200000 },
      arb: (fc) => fc.record({ truth: fc.array(fc.array(fc.boolean(), { maxLength: 4 }), { maxLength: 4 }) }),
      check(c, ctx, { index }) {
        const flags = [{ key: 'f', variants: { on: { key: 'on' } }, segments: [{ conditions: c.truth.map((g) => g.map((t) => ({ selector: ['context', 'user', t ? 'yes' : 'no'], op: 'is', values: ['1'] }))), variant: 'on' }] }];
        const got = Boolean(new index.EvaluationEngine().evaluate({ user: { yes: '1', no: '0' } }, flags).f);
        const want = c.truth.some((g) => g.every(Boolean));
        ctx.nontrivial(c.truth.length > 1 && c.truth.some((g) => g.includes(true) && g.includes(false)));
        same(got, want, 'OR of ANDs');
      } },
  ],
};
