// Generates /verif/DESIGN.md from properties.jsonl, the check modules, the notes and the findings file.
import fs from 'fs';
import path from 'path';
const V = path.resolve(import.meta.dirname, '..');
const { notes } = await import('./design-notes.mjs');
const { approach, alarms, limits } = await import('./design-text.mjs');
const props = fs.readFileSync(`${V}/properties.jsonl`, 'utf8').trim().split('\n').map((l) => JSON.parse(l));
const findings = fs.readFileSync(`${V}/known-findings.txt`, 'utf8').trim().split('\n');
const n = (v) => String(v).replace(/\B(?=(\d{3})+(?!\d))/g, ' ');
let out = `# Deciding the properties of experiment-js-client by generated-input search

Generated by tools/mkdesign.mjs from properties.jsonl, harness/props, tools/design-notes.mjs,
tools/design-text.mjs, known-findings.txt and seeded/.
${approach}
## Properties

${props.length} properties: E (evaluation engine, experiment-core), X (browser SDK, experiment-browser), A (analytics
connector), S (segment plugin), T (web experiment script, experiment-tag). All are claimed; none is listed as
not applicable.
`;
for (const p of props) {
  const file = `${V}/harness/props/${p.id}.mjs`;
  out += `\n### ${p.id} ${p.title}\n\n${p.statement}\n\n`;
  if (!fs.existsSync(file)) { out += 'No check yet.\n'; continue; }
  const m = (await import(file)).default;
  const [oracle, reach] = notes[p.id] || ['', ''];
  if (oracle) out += `* Oracle: ${oracle}\n`;
  if (reach) out += `* Why beyond the tests: ${reach}\n`;
  out += `* Non-trivial: ${m.rule.replace(/^a case is non-trivial when /, '')}\n`;
  if (m.assumptions?.length) out += `* Assumed: ${m.assumptions.join('; ')}\n`;
  for (const part of m.parts) out += `* Part \`${part.name}\`: ${part.what} [${n(part.runs.quick)} / ${n(part.runs.thorough)} cases]\n`;
  const f = findings.filter((l) => l.includes(`property=${p.id} `));
  for (const l of f) out += l.startsWith('fixed:') ? `* Fixed (${l.split(' ')[2]}): ${l.split(' ').slice(3).join(' ')}\n` : `* Known finding: ${l.replace(/^known: property=\S+ key=/, '')}\n`;
}
out += `\n## Defects found\n\n${findings.filter((l) => l.startsWith('fixed:')).length} defects were repaired in /repo ("fix:" commits, listed per property above and in known-findings.txt) and
${findings.filter((l) => l.startsWith('known:')).length} are recorded as known findings. The repairs of the X07 findings would need a new storage
format of the sent flags (the identity must be stored with them), which is a decision for the maintainers.
`;
out += alarms;
out += `\n## Planted bugs\n\nCommitted under seeded/ (patch, demonstration, meta.json); each compiles and passes the stable tests.\n\n| bug | property | needs | caught by |\n| --- | --- | --- | --- |\n`;
for (const d of fs.readdirSync(`${V}/seeded`).sort()) {
  const meta = JSON.parse(fs.readFileSync(`${V}/seeded/${d}/meta.json`, 'utf8'));
  const cell = (s) => String(s).replace(/\|/g, '\\|').replace(/\n/g, ' ');
  out += `| ${d} | ${meta.property} | ${cell(meta.needs)} | ${cell(meta.caught_by || meta.property)} |\n`;
}
if (fs.existsSync(`${V}/tools/design-results.md`)) out += '\n' + fs.readFileSync(`${V}/tools/design-results.md`, 'utf8');
out += limits;
fs.writeFileSync(`${V}/DESIGN.md`, out);
console.log(out.length, 'bytes', props.length, 'properties');
