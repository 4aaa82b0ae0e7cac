import fs from 'fs';
import os from 'os';
import path from 'path';
import v8 from 'v8';
import crypto from 'crypto';
import { spawn, spawnSync } from 'child_process';
import { Worker } from 'worker_threads';
import { fc, VERIF } from './paths.mjs';

export class Violation extends Error {
  constructor(message, key) { super(message); this.name = 'Violation'; this.key = key || null; }
}
export function fail(message, key) { throw new Violation(message, key); }
export function show(x) { try { const s = fc.stringify(x); return s.length > 1500 ? s.slice(0, 1500) + '…' : s; } catch { return String(x); } }
export function assert(cond, message, key) { if (!cond) fail(typeof message === 'function' ? message() : message, key); }

/** Deep equality that distinguishes undefined values from missing keys, NaN == NaN, 0 != -0 ignored. */
export function deq(a, b) {
  if (a === b) return true;
  if (typeof a === 'number' && typeof b === 'number') return Number.isNaN(a) && Number.isNaN(b);
  if (a === null || b === null || typeof a !== 'object' || typeof b !== 'object') return false;
  if (Array.isArray(a) !== Array.isArray(b)) return false;
  if (Array.isArray(a)) { if (a.length !== b.length) return false; for (let i = 0; i < a.length; i++) if (!deq(a[i], b[i])) return false; return true; }
  if (a instanceof Map && b instanceof Map) return deq([...a], [...b]);
  if (a instanceof Set && b instanceof Set) return deq([...a], [...b]);
  const ka = Object.keys(a), kb = Object.keys(b);
  if (ka.length !== kb.length) return false;
  for (const k of ka) { if (!Object.prototype.hasOwnProperty.call(b, k)) return false; if (!deq(a[k], b[k])) return false; }
  return true;
}
/** Removes keys whose value is undefined, recursively. */
export function clean(x) {
  if (Array.isArray(x)) return x.map(clean);
  if (x && typeof x === 'object' && (Object.getPrototypeOf(x) === Object.prototype || Object.getPrototypeOf(x) === null)) {
    const o = {};
    for (const k of Object.keys(x)) if (x[k] !== undefined) Object.defineProperty(o, k, { value: clean(x[k]), enumerable: true, writable: true, configurable: true });
    return o;
  }
  return x;
}
export function same(actual, expected, what, key) {
  if (!deq(actual, expected)) fail(`${what}: got ${show(actual)}, expected ${show(expected)}`, key);
}

// A case which never ends is a violation like any other. Code which waits for something that never comes makes the process end early
// (noticed on exit); code which spins is noticed by a thread that watches the case counter (watchdog.mjs).
const HANG_S = Number(process.env.VERIF_HANG_S || 150);
let pulse = null, finished = false;
function watch(id, seed, file) {
  fs.mkdirSync(path.dirname(file), { recursive: true }); fs.rmSync(file, { force: true });
  pulse = new Int32Array(new SharedArrayBuffer(4));
  const note = { property: id, seed, how: `cd /verif && VERIF_SEED=${seed} node harness/run.mjs ${id}` };
  new Worker(new URL('./watchdog.mjs', import.meta.url), { workerData: { buffer: pulse.buffer, limit: HANG_S, file, note } }).unref();
  process.on('exit', () => { if (finished || process.exitCode) return; const n = Atomics.load(pulse, 0); fs.writeFileSync(file, JSON.stringify({ ...note, evaluation: n, message: `evaluation ${n} waits for something that never comes` }, null, 1)); process.exitCode = 4; });
}

function hash32(s) { return crypto.createHash('sha256').update(s).digest().readInt32LE(0); }
function digest(c) {
  let b; try { b = v8.serialize(c); } catch { b = Buffer.from(show(c)); }
  return crypto.createHash('md5').update(b).digest('base64').slice(0, 12);
}

export function readFindings() {
  const f = path.join(VERIF, 'known-findings.txt');
  const known = [];
  if (!fs.existsSync(f)) return known;
  for (const line of fs.readFileSync(f, 'utf8').split('\n')) {
    const m = /^known: property=(\S+) key=(\S+) (.*)$/.exec(line);
    if (m) known.push({ property: m[1], key: m[2], what: m[3] });
  }
  return known;
}

class Ctx {
  constructor(prop, known) { this.prop = prop; this.classes = {}; this.distinct = new Set(); this.evaluations = 0; this.samples = []; this.knownHits = {}; this.known = known; }
  begin(part, c) { if (pulse) Atomics.add(pulse, 0, 1); this.part = part; this.caseNon = false; this.cur = c; this.evaluations++; }
  cls(name, on = true) { if (on) { const k = `${this.part}/${name}`; this.classes[k] = (this.classes[k] || 0) + 1; } }
  nontrivial(on = true) { if (on) this.caseNon = true; }
  /** Report a violation that may be a listed finding; unlisted ones fail the case. */
  report(message, key) {
    if (key && this.known.some((k) => k.key === key)) { this.knownHits[key] = (this.knownHits[key] || 0) + 1; return; }
    fail(message, key);
  }
  end() {
    if (!this.caseNon) return;
    const d = digest(this.cur);
    if (!this.distinct.has(d)) {
      this.distinct.add(d);
      const n = this.samples.filter((s) => s.part === this.part).length;
      if (n < 2) this.samples.push({ part: this.part, case: show(this.cur).slice(0, 600) });
    }
  }
}

const SHRINK_EVALS = Number(process.env.VERIF_SHRINK || 250);

async function runPart(prop, part, env, ctx, seed, numRuns) {
  const arb = part.arb(fc, env);
  let failures = 0, after = 0, last = null;
  const guardBefore = (c) => {
    if (failures > 0) { after++; if (after > (part.shrink ?? SHRINK_EVALS)) return false; }
    ctx.begin(part.name, c);
    return true;
  };
  const onErr = (e, c) => { failures++; last = { error: e, case: c }; };
  const examples = part.examples ? part.examples(env) : undefined;
  const params = { seed, numRuns, endOnFailure: false, ...(examples ? { examples: examples.map((e) => [e]) } : {}) };
  let res;
  if (part.sync) {
    res = fc.check(fc.property(arb, (c) => {
      if (!guardBefore(c)) return;
      try { part.check(c, ctx, env); } catch (e) { if (isKnown(e, ctx)) return; onErr(e, c); throw e; }
      ctx.end();
    }), params);
  } else {
    res = await fc.check(fc.asyncProperty(arb, async (c) => {
      if (!guardBefore(c)) return;
      try { await part.check(c, ctx, env); } catch (e) { if (isKnown(e, ctx)) return; onErr(e, c); throw e; }
      ctx.end();
    }), params);
  }
  if (!res.failed) return null;
  const cex = res.counterexample ? res.counterexample[0] : last && last.case;
  return { part: part.name, seed, path: res.counterexamplePath, counterexample: cex, message: last ? `${last.error && last.error.message}` : String(res.error || ''), stack: last && last.error && !(last.error instanceof Violation) ? String(last.error.stack).slice(0, 2000) : undefined };
}
function isKnown(e, ctx) {
  if (e instanceof Violation && e.key && ctx.known.some((k) => k.key === e.key)) { ctx.knownHits[e.key] = (ctx.knownHits[e.key] || 0) + 1; return true; }
  return false;
}

export async function main(argv) {
  const id = argv[0];
  const opt = (n, d) => { const i = argv.indexOf('--' + n); return i >= 0 ? argv[i + 1] : d; };
  const hangFile = opt('out', null) ? opt('out') + '.hang' : path.join(VERIF, 'replays', `${id}-hang.json`);
  if (!process.env.VERIF_CHILD) {
    fs.rmSync(hangFile, { force: true });
    const r = spawnSync(process.execPath, [...process.execArgv, path.join(VERIF, 'harness/run.mjs'), ...argv], { stdio: 'inherit', env: { ...process.env, VERIF_CHILD: '1' } });
    if ((r.signal || r.status === 4) && fs.existsSync(hangFile)) {
      console.log(`# ${JSON.parse(fs.readFileSync(hangFile, 'utf8')).message}\nVIOLATION property=${id} replay=${hangFile}`);
      process.exit(1);
    }
    process.exit(r.status ?? 2);
  }
  const tier = opt('tier', process.env.VERIF_TIER || 'quick');
  const seed0 = Number(process.env.VERIF_SEED || 1) || 1;
  const only = opt('part', null);
  const shard = opt('shard', null);
  const replay = opt('replay', null);
  const scale = Number(opt('scale', process.env.VERIF_SCALE || '1'));
  const t0 = Date.now();
  process.on('unhandledRejection', (e) => { (globalThis.__unhandled = globalThis.__unhandled || []).push(e); });
  process.removeAllListeners('warning');

  const prop = (await import(`../props/${id}.mjs`)).default;
  const known = readFindings().filter((k) => k.property === id);
  const evfile = path.join(VERIF, 'evidence', `${id}.json`);
  fs.mkdirSync(path.dirname(evfile), { recursive: true });

  if (tier === 'thorough' && !shard && !replay && !only) {
    return await thorough(id, prop, known, evfile, seed0, t0);
  }

  watch(id, seed0, hangFile);
  const env = prop.setup ? await prop.setup() : {};
  const ctx = new Ctx(prop, known);
  const violations = [];

  if (replay) {
    const r = JSON.parse(fs.readFileSync(replay, 'utf8'));
    const part = prop.parts.find((p) => p.name === r.part);
    const c = v8.deserialize(Buffer.from(r.value_v8, 'base64'));
    ctx.begin(part.name, c);
    try { await part.check(c, ctx, env); finished = true; console.log('replay: property held'); process.exit(0); }
    catch (e) {
      if (isKnown(e, ctx)) { finished = true; console.log(`KNOWN-FINDING: property=${id} ${e.message}`); process.exit(0); }
      console.log(e.stack); console.log(`VIOLATION property=${id} replay=${replay}`); process.exit(1);
    }
  }

  for (const part of prop.parts) {
    if (only && part.name !== only) continue;
    let n = part.runs?.[tier] ?? (tier === 'quick' ? 1000 : 20000);
    n = Math.max(1, Math.round(n * scale));
    let sfx = '';
    if (shard) { const [i, k] = shard.split('/').map(Number); n = Math.ceil(n / k); sfx = ':' + i; }
    const tp = Date.now();
    const v = await runPart(prop, part, env, ctx, hash32(`${seed0}:${id}:${part.name}${sfx}`), n);
    if (opt('verbose', null) !== null || process.env.VERIF_VERBOSE) console.log(`part ${part.name}: ${n} runs ${Date.now() - tp} ms`);
    if (v) violations.push(v);
    // generator sanity: declared classes must have been produced
    if (!v && scale >= 1 && !only) for (const [c, min] of Object.entries(part.expect || {})) {
      const got = ctx.classes[`${part.name}/${c}`] || 0;
      if (got < Math.ceil(min * n)) { console.error(`generator problem: class ${part.name}/${c} seen ${got} of ${n} (expected at least ${min * 100}%)`); if (process.env.VERIF_STRICT) process.exitCode = 3; }
    }
  }

  if (shard) {
    const out = { classes: ctx.classes, distinct: [...ctx.distinct], evaluations: ctx.evaluations, samples: ctx.samples, knownHits: ctx.knownHits, violations: violations.map(ser) };
    fs.writeFileSync(opt('out', 'out.json'), JSON.stringify(out));
    finished = true;
    process.exit(0);
  }
  finish(id, prop, evfile, tier, seed0, t0, { classes: ctx.classes, distinct: ctx.distinct.size, evaluations: ctx.evaluations, samples: ctx.samples, knownHits: ctx.knownHits, violations: violations.map(ser) }, known);
}
function ser(v) {
  let value = null; try { value = v8.serialize(v.counterexample).toString('base64'); } catch { /* not serialisable */ }
  return { part: v.part, seed: v.seed, path: v.path, message: v.message, stack: v.stack, counterexample: show(v.counterexample), value_v8: value };
}
function finish(id, prop, evfile, tier, seed0, t0, r, known) {
  finished = true;
  const lines = [];
  const vout = [];
  r.violations.forEach((v) => {
    const dir = path.join(VERIF, 'replays'); fs.mkdirSync(dir, { recursive: true });
    const f = path.join(dir, `${id}-${v.part}.json`);
    fs.writeFileSync(f, JSON.stringify({ property: id, ...v, how: `cd /verif && node harness/run.mjs ${id} --replay ${f}` }, null, 1));
    lines.push(`# ${v.part}: ${v.message}`.split('\n')[0].slice(0, 1800));
    if (v.stack) lines.push(v.stack.split('\n').slice(0, 6).map((l) => '#   ' + l).join('\n'));
    lines.push(`# case: ${v.counterexample}`.slice(0, 2500).replace(/\n/g, ' '));
    lines.push(`VIOLATION property=${id} replay=${f}`);
    vout.push({ part: v.part, message: v.message, replay: f });
  });
  for (const k of known) lines.push(`KNOWN-FINDING: property=${id} ${k.what}`);
  const ev = {
    property: id, tier, seed: seed0, level: prop.level || 'exploration',
    coverage: { evaluations: r.evaluations, distinct_nontrivial: r.distinct, rule: prop.rule, samples: r.samples.slice(0, 12), classes: r.classes, parts: prop.parts.map((p) => ({ name: p.name, what: p.what || '' })), known_findings_hit: r.knownHits },
    wall_s: (Date.now() - t0) / 1000, violations: vout, assumptions: prop.assumptions || [],
  };
  if (typeof prop.evidence === 'function') prop.evidence(ev);
  fs.writeFileSync(evfile, JSON.stringify(ev, null, 1));
  for (const l of lines) console.log(l);
  console.log(`${id} ${tier}: ${r.evaluations} cases, ${r.distinct} distinct non-trivial, ${r.violations.length} violations, ${((Date.now() - t0) / 1000).toFixed(1)} s`);
  process.exit(r.violations.length ? 1 : process.exitCode || 0);
}
async function thorough(id, prop, known, evfile, seed0, t0) {
  const k = Number(process.env.VERIF_SHARDS || 8);
  const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'verif-'));
  const outs = await Promise.all(Array.from({ length: k }, (_, i) => new Promise((res, rej) => {
    const out = path.join(dir, `${i}.json`);
    const p = spawn(process.execPath, [...process.execArgv, path.join(VERIF, 'harness/run.mjs'), id, '--tier', 'thorough', '--shard', `${i}/${k}`, '--out', out], { stdio: ['ignore', 'ignore', 'inherit'], env: process.env });
    p.on('exit', (code) => { if (fs.existsSync(out + '.hang')) res({ classes: {}, distinct: [], evaluations: 0, samples: [], knownHits: {}, violations: [{ part: 'hang', ...JSON.parse(fs.readFileSync(out + '.hang', 'utf8')), counterexample: '' }] }); else if (code !== 0 && !fs.existsSync(out)) rej(new Error(`shard ${i} exited ${code}`)); else res(JSON.parse(fs.readFileSync(out, 'utf8'))); });
  })));
  fs.rmSync(dir, { recursive: true, force: true });
  const r = { classes: {}, distinct: new Set(), evaluations: 0, samples: outs[0].samples, knownHits: {}, violations: [] };
  for (const o of outs) {
    r.evaluations += o.evaluations; o.distinct.forEach((d) => r.distinct.add(d));
    for (const [c, n] of Object.entries(o.classes)) r.classes[c] = (r.classes[c] || 0) + n;
    for (const [c, n] of Object.entries(o.knownHits)) r.knownHits[c] = (r.knownHits[c] || 0) + n;
    for (const v of o.violations) if (!r.violations.some((w) => w.part === v.part)) r.violations.push(v);
  }
  r.distinct = r.distinct.size;
  finish(id, prop, evfile, 'thorough', seed0, t0, r, known);
}
