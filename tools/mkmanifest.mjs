// Regenerates MANIFEST.json from properties.jsonl and the check modules present.
import fs from 'fs';
const V = '/verif';
const props = fs.readFileSync(V + '/properties.jsonl', 'utf8').trim().split('\n').map((l) => JSON.parse(l));
const tech = JSON.parse(fs.readFileSync(V + '/tools/techniques.json', 'utf8'));
const checks = [], na = [];
for (const p of props) {
  if (fs.existsSync(`${V}/harness/props/${p.id}.mjs`)) {
    const t = tech[p.id] || {};
    checks.push({ property: p.id, quick_cmd: `node harness/run.mjs ${p.id} --tier quick`, thorough_cmd: `node harness/run.mjs ${p.id} --tier thorough`, evidence_file: `evidence/${p.id}.json`, technique: t.technique || 'property-based testing (fast-check): generated inputs against a reference model', level: 'exploration', level_note: t.note || 'Random structured generation with shrinking; explores a bounded number of generated cases, shows presence of violations and never absence.' });
  } else na.push({ property: p.id, reason: (tech[p.id] && tech[p.id].na) || 'Amenable to this technique, but its check is not built yet.' });
}
fs.writeFileSync(V + '/MANIFEST.json', JSON.stringify({ version: 1, setup_cmd: 'node harness/setup.mjs', hooks: { guard: 'none', enable: 'No hooks were added to /repo; the checks bundle the sources of the working tree as they are.', source_commits: [] }, checks, not_applicable: na, notes: 'Every check bundles /repo/packages/*/src with esbuild (never dist), runs it in a simulated page (own virtual clock, storage, network; jsdom for DOM) and drives it with fast-check seeded from VERIF_SEED.' }, null, 1) + '\n');
console.log(checks.length, 'checks', na.length, 'not applicable');
