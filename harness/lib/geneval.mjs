// Generators for flags, contexts and property values.
import { fc } from './paths.mjs';
export const OPS_POS = ['is', 'contains', 'less', 'less or equal', 'greater', 'greater or equal', 'version less', 'version less or equal', 'version greater', 'version greater or equal', 'set is', 'set contains', 'set contains any', 'regex match'];
export const OPS_NEG = ['is not', 'does not contain', 'set is not', 'set does not contain', 'set does not contain any', 'regex does not match'];
export const OPS = [...OPS_POS, ...OPS_NEG];
export const words = ['a', 'b', 'ab', 'A', 'true', 'FALSE', 'True', 'false', 'US', 'us', '1', '2', '10', '1.5', '-3', '(none)', '', ' ', 'é', '日本', '1.2.3', '1.10.0', '[a]', '["a","b"]', '[]', '[1,2]', '["true"]', 'on', 'off', 'premium', '0', '01', '1e1', 'Infinity', 'x y', '😀'];
export const word = () => fc.constantFrom(...words);
export const version = () => fc.oneof(
  fc.tuple(fc.nat(12), fc.nat(12), fc.option(fc.nat(12), { nil: null }), fc.option(fc.constantFrom('-alpha', '-beta.1', '-rc', '-1', '-a.b.'), { nil: null, freq: 3 }))
    .map(([a, b, c, p]) => (c === null ? `${a}.${b}` : `${a}.${b}.${c}${p || ''}`)),
  fc.constantFrom('1', '1.', 'v1.2', '1.2.3.4', '1.2.', '1..2', '01.02.03', '1.2-alpha', ' 1.2', '10.0.0', '9.0.0', '1.2.3-', '2.0.0-beta', '2.0.0'));
export const anyText = () => fc.oneof({ weight: 4, arbitrary: word() }, { weight: 2, arbitrary: version() }, { weight: 1, arbitrary: fc.string({ maxLength: 6 }) }, { weight: 1, arbitrary: fc.string({ unit: 'grapheme', maxLength: 5 }) }, { weight: 1, arbitrary: fc.integer({ min: -20, max: 120 }).map(String) });
export const scalar = () => fc.oneof(
  { weight: 6, arbitrary: anyText() },
  { weight: 2, arbitrary: fc.integer({ min: -20, max: 120 }) },
  { weight: 1, arbitrary: fc.constantFrom(0, 1.5, -0.5, 1e21, NaN, Infinity, 0.1) },
  { weight: 2, arbitrary: fc.boolean() });
export const listValue = () => fc.array(fc.oneof({ weight: 8, arbitrary: scalar() }, { weight: 1, arbitrary: fc.constantFrom(null, ['n'], { k: 1 }) }), { maxLength: 4 });
export const jsonListText = () => fc.oneof(
  fc.array(fc.oneof(anyText(), fc.integer({ min: 0, max: 12 }), fc.boolean(), fc.constant(null)), { maxLength: 4 }).map((a) => JSON.stringify(a)),
  fc.constantFrom('[', '[a', '["a"', '[1,]', '[]', '[null]', '["", "a"]', ' ["a"]', '{"a":1}', '[[1]]'));
export const propValue = () => fc.oneof(
  { weight: 6, arbitrary: scalar() }, { weight: 3, arbitrary: listValue() }, { weight: 2, arbitrary: jsonListText() },
  { weight: 1, arbitrary: fc.constantFrom(null, undefined) }, { weight: 1, arbitrary: fc.constantFrom({}, { a: 'b' }, { x: [1] }) });
export const regexes = ['^a', 'b$', '.', '^$', '^\\d+$', 'a|b', '[A-Z]', '(true|false)', '^.{2,}$', 'é', '\\.'];
export const uniq = (xs) => { const s = new Set(); return xs.filter((x) => { const k = x.toLowerCase(); if (s.has(k)) return false; s.add(k); return true; }); };
export function condValues(op) {
  if (op.startsWith('regex')) return fc.array(fc.constantFrom(...regexes), { minLength: 1, maxLength: 2 });
  if (op.startsWith('version')) return fc.array(fc.oneof({ weight: 4, arbitrary: version() }, { weight: 1, arbitrary: word() }), { minLength: 1, maxLength: 3 });
  if (op.includes('less') || op.includes('greater')) return fc.array(fc.oneof({ weight: 4, arbitrary: fc.integer({ min: -20, max: 120 }).map(String) }, { weight: 1, arbitrary: word() }), { minLength: 1, maxLength: 3 });
  return fc.array(anyText(), { minLength: 0, maxLength: 4 }).map(uniq);
}
/** an (operator, filter values, property value) triple biased so that relations hold often */
export const conditionCase = () => fc.constantFrom(...OPS).chain((op) => condValues(op).chain((values) => {
  const fromValues = values.length
    ? fc.oneof(fc.constantFrom(...values), fc.constantFrom(...values).map((v) => v.toUpperCase()), fc.constantFrom(...values).map((v) => `x${v}y`),
      fc.subarray(values), fc.subarray(values).map((a) => JSON.stringify(a)), fc.tuple(fc.subarray(values), listValue()).map(([a, b]) => [...a, ...b]), fc.shuffledSubarray(values, { minLength: values.length }), fc.constantFrom(...values).map((v) => (Number.isFinite(Number(v)) && v.trim() !== '' ? Number(v) : v)))
    : propValue();
  const versions = op.startsWith('version') ? version() : propValue();
  return fc.oneof({ weight: 4, arbitrary: fromValues }, { weight: 3, arbitrary: propValue() }, { weight: op.startsWith('version') ? 5 : 1, arbitrary: versions })
    .map((value) => ({ op, values, value }));
}));

export const FLAG_KEYS = ['f1', 'f2', 'f3', 'f4', 'f5'];
export const VARIANT_KEYS = ['control', 'treatment', 'on', 'off'];
const PROPS = ['country', 'version', 'plan', 'tags', 'n'];
export const selector = (flagKeys) => fc.oneof(
  { weight: 5, arbitrary: fc.constantFrom(...PROPS).map((p) => ['context', 'user', p]) },
  { weight: 3, arbitrary: fc.constantFrom(...PROPS).map((p) => ['context', 'user', 'user_properties', p]) },
  { weight: 2, arbitrary: fc.tuple(fc.constantFrom(...flagKeys), fc.constantFrom('key', 'value', 'payload')).map(([f, p]) => ['result', f, p]) },
  { weight: 1, arbitrary: fc.constantFrom(['result', 'f1', 'metadata', 'm'], ['context', 'groups', 'org', 'group_name'], [], [''], ['context', '', 'x'], ['context', 'user', 'country', 'deep'], ['context', 'user'], ['context', 'user', 'constructor'], ['context', 'user', 'user_properties', 'toString'], ['result', 'valueOf', 'key'], ['result', 'hasOwnProperty']) });
export const condition = (flagKeys) => fc.oneof(
  { weight: 4, arbitrary: fc.tuple(selector(flagKeys), fc.constantFrom(...OPS)).chain(([s, op]) => condValues(op).map((values) => ({ selector: s, op, values }))) },
  { weight: 2, arbitrary: fc.tuple(fc.constantFrom(...flagKeys), fc.constantFrom('is', 'is not'), fc.subarray(VARIANT_KEYS, { minLength: 1 })).map(([f, op, values]) => ({ selector: ['result', f, 'key'], op, values })) },
  { weight: 2, arbitrary: fc.tuple(fc.constantFrom('country', 'plan'), fc.constantFrom('is', 'is not'), fc.constantFrom(['US'], ['a', 'US'], ['premium'], ['b'])).map(([p, op, values]) => ({ selector: ['context', 'user', p], op, values })) });
export const meta = () => fc.option(fc.record({ m: fc.nat(3), segmentName: fc.constantFrom('All', 'Seg 1', 'Seg 2'), default: fc.boolean(), deployed: fc.boolean(), experimentKey: fc.constantFrom('exp-1', 'exp-2') }, { requiredKeys: [] }), { nil: undefined, freq: 3 });
const MAXD = 42949673;
/** half-open tilings of [0, max] by cut points */
const tiling = (max, n) => fc.array(fc.integer({ min: 0, max }), { maxLength: n }).map((cuts) => {
  const c = [...new Set([0, ...cuts, max])].sort((a, b) => a - b); const r = [];
  for (let i = 0; i + 1 < c.length; i++) r.push([c[i], c[i + 1]]);
  return r;
});
export const ranges = (max) => fc.oneof({ weight: 3, arbitrary: tiling(max, 3) }, { weight: 1, arbitrary: fc.array(fc.tuple(fc.integer({ min: 0, max }), fc.integer({ min: 0, max })), { maxLength: 3 }) });
export const bucket = (variants) => fc.record({
  selector: fc.oneof({ weight: 6, arbitrary: fc.constantFrom(['context', 'user', 'user_id'], ['context', 'user', 'device_id']) }, { weight: 1, arbitrary: fc.constantFrom(['context', 'user', 'missing'], ['context', 'user', 'n'], ['context', 'user', 'tags'], ['context', 'user', 'empty']) }),
  salt: fc.constantFrom('salt', 's', '', 'exp-1', 'é'),
  allocations: ranges(100).chain((rs) => fc.tuple(...rs.map((range) => ranges(MAXD).chain((ds) => fc.tuple(...ds.map((d) => fc.constantFrom(...variants, 'ghost').map((variant) => ({ variant, range: d })))).map((distributions) => ({ range, distributions })))))),
});
export const segment = (flagKeys, variants) => fc.record({
  conditions: fc.option(fc.array(fc.array(condition(flagKeys), { maxLength: 3 }), { maxLength: 3 }), { nil: undefined, freq: 3 }),
  bucket: fc.option(bucket(variants), { nil: undefined, freq: 2 }),
  variant: fc.option(fc.oneof({ weight: 6, arbitrary: fc.constantFrom(...variants) }, { weight: 1, arbitrary: fc.constant('ghost') }), { nil: undefined, freq: 3 }),
  metadata: meta(),
}).map(strip);
export function strip(o) { const r = {}; for (const k of Object.keys(o)) if (o[k] !== undefined) r[k] = o[k]; return r; }
export const variantsMap = () => fc.subarray(VARIANT_KEYS, { minLength: 1 }).chain((ks) => fc.tuple(...ks.map((k) => fc.record({ value: fc.constantFrom(undefined, k, 'other', '1', 'true'), payload: fc.constantFrom(undefined, { a: 1 }, 'p', [1], '', 0, false), metadata: meta() }).map((v) => [k, strip({ key: k, ...v })]))).map((es) => Object.fromEntries(es)));
export const flag = (key, flagKeys = FLAG_KEYS) => variantsMap().chain((variants) => fc.record({
  key: fc.constant(key), variants: fc.constant(variants),
  segments: fc.array(segment(flagKeys, Object.keys(variants)), { maxLength: 4 }),
  metadata: meta(),
}).map(strip));
export const user = () => fc.record({
  user_id: fc.option(fc.oneof(fc.constantFrom('u1', 'u2', 'user-é', ''), fc.string({ maxLength: 8 })), { nil: undefined, freq: 5 }),
  device_id: fc.option(fc.oneof(fc.constantFrom('d1', 'd2'), fc.uuid()), { nil: undefined, freq: 5 }),
  country: fc.option(fc.constantFrom('US', 'us', 'a', 'b', true, 3), { nil: undefined }),
  version: fc.option(version(), { nil: undefined }), plan: fc.option(propValue(), { nil: undefined }),
  tags: fc.option(listValue(), { nil: undefined }), n: fc.option(scalar(), { nil: undefined }), empty: fc.constant(''),
  user_properties: fc.option(fc.record({ country: word(), plan: propValue(), tags: fc.oneof(listValue(), jsonListText()), n: scalar(), version: version() }, { requiredKeys: [] }), { nil: undefined }),
}).map(strip);
export const context = () => fc.record({ user: user(), groups: fc.option(fc.constant({ org: { group_name: 'amp' } }), { nil: undefined }) }).map(strip);
export const flags = () => fc.shuffledSubarray(FLAG_KEYS, { minLength: 1 }).chain((ks) => fc.tuple(...ks.map((k) => flag(k, FLAG_KEYS))));
