import { plainBundle } from '../lib/build.mjs';
import { same, fail } from '../lib/runner.mjs';
import * as ref from '../lib/refeval.mjs';
import * as gen from '../lib/geneval.mjs';
export default {
  id: 'E06', level: 'exploration',
  rule: 'a case is non-trivial when a flag with at least two segments resolves to a variant',
  assumptions: ['regular expressions in conditions are valid (traces also visit the segments behind the winner)'],
  async setup() { return plainBundle('core'); },
  parts: [
    { name: 'agreement', what: 'traced evaluation vs plain evaluation, and every step vs the reference', sync: true, runs: { quick: 12000, thorough: 400000 },
      arb: (fc) => fc.record({ context: gen.context(), flags: gen.flags() }),
      check(c, ctx, { index }) {
        const e = new index.EvaluationEngine();
        const plain = e.evaluate(c.context, c.flags);
        const { results, traces } = e.evaluateWithTraces(c.context, c.flags);
        same(results, plain, 'variants with traces vs without');
        same(Object.keys(traces).sort(), c.flags.map((f) => f.key).sort(), 'traced flags');
        const result = {};
        for (const f of c.flags) {
          const target = { context: c.context, result };
          const t = traces[f.key];
          const win = ref.evaluateFlag(target, f);
          ctx.nontrivial(Boolean(win) && f.segments.length > 1);
          ctx.cls('matched', Boolean(win)); ctx.cls('multi', f.segments.length > 1);
          same(t.flagKey, f.key, 'trace flag key');
          same(t.matched, Boolean(win), `matched of ${f.key}`);
          if (win) same(t.matchedSegment, win.segment.metadata && win.segment.metadata.segmentName, `matched segment of ${f.key}`);
          // what follows the segment that supplied the variant may be recorded too
          const least = win ? f.segments.indexOf(win.segment) + 1 : f.segments.length;
          if (t.steps.length < least || t.steps.length > f.segments.length) fail(`${t.steps.length} steps of ${f.key}, expected ${least} to ${f.segments.length}`);
          f.segments.slice(0, t.steps.length).forEach((seg, i) => {
            const s = t.steps[i];
            const passed = ref.segmentMatches(target, seg);
            const bucket = passed ? ref.bucketOf(target, seg) : undefined;
            same(s.conditionsPassed, passed, `step ${i} conditions`);
            same(s.bucketVariant, bucket, `step ${i} bucket variant`);
            same(s.bucketed, bucket !== undefined, `step ${i} bucketed`);
            same(s.matched, passed && bucket !== undefined, `step ${i} matched`);
            same(s.segmentMetadata, seg.metadata, `step ${i} metadata`);
            if (!seg.conditions) { same(s.conditionResult, undefined, `step ${i} condition results`); return; }
            const want = [];
            for (const group of seg.conditions) {
              const row = []; let ok = true;
              for (const cond of group) {
                const v = ref.lookup(target, cond.selector);
                const m = ref.conditionMatches(v, cond.op, cond.values);
                row.push({ propValue: v, condition: cond, matched: m });
                if (!m) { ok = false; break; }
              }
              want.push(row);
              if (ok) break;
            }
            same(s.conditionResult, want, `step ${i} condition results`);
          });
          if (win) result[f.key] = win.variant;
        }
      } },
  ],
};
