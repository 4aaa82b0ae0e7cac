import { plainBundle } from '../lib/build.mjs';
import { same, deq, fail, show } from '../lib/runner.mjs';
import * as ref from '../lib/refeval.mjs';
import * as gen from '../lib/geneval.mjs';
export default {
  id: 'E01', level: 'exploration',
  rule: 'a case is non-trivial when at least one flag resolves to a variant and at least one segment is skipped or conditioned (so that first-match order matters)',
  assumptions: ['contexts are JSON-like values', 'regular expressions in conditions are valid', 'reference semantics in harness/lib/refeval.mjs'],
  async setup() { return plainBundle('core'); },
  parts: [
    { name: 'differential', what: 'engine vs reference evaluator on generated flag sets', sync: true, runs: { quick: 20000, thorough: 600000 },
      arb: (fc) => fc.record({ context: gen.context(), flags: gen.flags() }),
      expect: { assigned: 0.5, skippedSegment: 0.2, bucketed: 0.1, dependencyRead: 0.05, bothMeta: 0.05 },
      check(c, ctx, { index }) {
        const before = JSON.stringify(c);
        const got = new index.EvaluationEngine().evaluate(c.context, c.flags);
        const want = ref.evaluate(c.context, c.flags);
        let skipped = false, dep = false, bucketed = false, both = false;
        const target = { context: c.context, result: want };
        for (const f of c.flags) {
          const r = ref.evaluateFlag(target, f);
          if (r && f.segments.indexOf(r.segment) > 0) skipped = true;
          if (r && r.segment.bucket) bucketed = true;
          if (r && f.metadata && r.segment.metadata) both = true;
          if (JSON.stringify(f.segments).includes('"result","f') && Object.keys(want).length > 1) dep = true;
        }
        ctx.cls('assigned', Object.keys(want).length > 0); ctx.cls('skippedSegment', skipped); ctx.cls('bucketed', bucketed); ctx.cls('dependencyRead', dep); ctx.cls('bothMeta', both);
        ctx.nontrivial(Object.keys(want).length > 0 && (skipped || c.flags.some((f) => f.segments.some((s) => s.conditions))));
        same(got, want, 'evaluation result');
        if (JSON.stringify(c) !== before) fail('evaluation modified its inputs');
      } },
    { name: 'repeatable', what: 'same engine instance, repeated and interleaved evaluations give the same answers', sync: true, runs: { quick: 2000, thorough: 60000 },
      arb: (fc) => fc.record({ a: gen.context(), b: gen.context(), flags: gen.flags() }),
      check(c, ctx, { index }) {
        const e = new index.EvaluationEngine();
        const r1 = e.evaluate(c.a, c.flags); const r2 = e.evaluate(c.b, c.flags); const r3 = e.evaluate(c.a, c.flags);
        ctx.nontrivial(Object.keys(r1).length > 0 && !deq(r1, r2));
        same(r3, r1, 'repeated evaluation of the same context');
        same(r2, new index.EvaluationEngine().evaluate(c.b, c.flags), 'evaluation with a used engine');
      } },
    { name: 'segment-locality', what: 'metamorphic: appending segments after the winner or prefixing never-matching ones changes nothing', sync: true, runs: { quick: 3000, thorough: 100000 },
      arb: (fc) => fc.record({ context: gen.context(), flag: gen.flag('f1'), extra: gen.flag('f1').map((f) => f.segments) }),
      check(c, ctx, { index }) {
        const e = new index.EvaluationEngine();
        const base = e.evaluate(c.context, [c.flag]);
        const never = { conditions: [], variant: Object.keys(c.flag.variants)[0] };
        const pre = e.evaluate(c.context, [{ ...c.flag, segments: [never, ...c.flag.segments] }]);
        same(pre, base, 'result after prefixing a segment with no condition group');
        if (base.f1) {
          ctx.nontrivial(c.extra.length > 0);
          same(e.evaluate(c.context, [{ ...c.flag, segments: [...c.flag.segments, ...c.extra] }]), base, 'result after appending segments behind the winner');
        }
      } },
  ],
};
