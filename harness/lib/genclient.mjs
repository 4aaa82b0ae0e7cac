import { fc } from './paths.mjs';
import { strip } from './geneval.mjs';
export const KEYS = ['flag-a', 'flag-b', 'flag-c', 'flag-d'];
export const ODD_KEYS = ['constructor', 'toString', 'hasOwnProperty', 'valueOf', '__proto__'];
export const meta = (extra = {}) => fc.record({ default: fc.boolean(), experimentKey: fc.constantFrom('exp-1', 'exp-2'), deployed: fc.boolean(), trackExposure: fc.boolean(), segmentName: fc.constantFrom('S1', 'S2'), ...extra }, { requiredKeys: [] });
export const optMeta = (extra) => fc.option(meta(extra), { nil: undefined, freq: 3 });
/** a variant as the server sends it */
export const served = (extra) => fc.record({
  key: fc.option(fc.constantFrom('on', 'off', 'control', 'treatment'), { nil: undefined, freq: 8 }),
  value: fc.option(fc.constantFrom('on', 'off', 'v1', 'v2', ''), { nil: undefined, freq: 4 }),
  payload: fc.option(fc.constantFrom({ a: 1 }, 'text', [1, 2], 0, false, '', 5), { nil: undefined, freq: 2 }),
  metadata: optMeta(extra),
}).map(strip);
/** a variant as some release of the SDK persisted it, or as configured by the user */
export const stored = () => fc.oneof(
  { weight: 5, arbitrary: served() },
  { weight: 1, arbitrary: fc.constantFrom('on', 'off', 'v0') },
  { weight: 2, arbitrary: fc.record({ value: fc.constantFrom('on', 'v1'), payload: fc.constantFrom(undefined, { p: 1 }), expKey: fc.constantFrom(undefined, 'exp-9'), metadata: optMeta() }).map(strip) },
  { weight: 1, arbitrary: fc.record({ key: fc.constantFrom('on', 'treatment'), value: fc.constantFrom('on', 'v1'), expKey: fc.constantFrom('exp-9', 'exp-8'), metadata: optMeta() }).map(strip) });
export const mapOf = (arb, keys = KEYS) => fc.subarray(keys).chain((ks) => fc.tuple(...ks.map((k) => arb.map((v) => [k, v]))).map((es) => Object.fromEntries(es)));
export const fallback = () => fc.oneof({ weight: 3, arbitrary: fc.constant(undefined) }, { weight: 1, arbitrary: fc.constant(null) }, { weight: 2, arbitrary: fc.constantFrom('inline', 'off', '') }, { weight: 2, arbitrary: fc.constantFrom({ key: 'fb', value: 'fb' }, { value: 'fb2', payload: { x: 1 } }, {}) });
/** flags for local or remote evaluation, conditioned only on fields the harness controls */
const cond = () => fc.oneof(
  fc.tuple(fc.constantFrom('is', 'is not'), fc.constantFrom('a', 'b')).map(([op, v]) => ({ selector: ['context', 'user', 'user_properties', 'plan'], op, values: [v] })),
  fc.tuple(fc.constantFrom('is', 'is not'), fc.constantFrom('u1', 'u2')).map(([op, v]) => ({ selector: ['context', 'user', 'user_id'], op, values: [v] })),
  fc.tuple(fc.constantFrom(...KEYS), fc.constantFrom('on', 'off')).map(([k, v]) => ({ selector: ['result', k, 'key'], op: 'is', values: [v] })),
  fc.tuple(fc.constantFrom('amp', 'x')).map(([v]) => ({ selector: ['context', 'groups', 'org', 'group_name'], op: 'is', values: [v] })));
export const evalFlag = (key, deps) => fc.record({
  key: fc.constant(key),
  variants: fc.record({ on: served().map((v) => ({ ...v, key: 'on' })), off: served().map((v) => ({ ...v, key: 'off', metadata: { ...(v.metadata || {}), default: true } })), control: served().map((v) => ({ ...v, key: 'control' })) }),
  segments: fc.array(fc.record({ conditions: fc.option(fc.array(fc.array(cond(), { maxLength: 2 }), { minLength: 1, maxLength: 2 }), { nil: undefined, freq: 2 }), variant: fc.constantFrom('on', 'off', 'control'), metadata: optMeta() }).map(strip), { maxLength: 3 }),
  metadata: fc.option(fc.record({ evaluationMode: fc.constantFrom('local', 'local', 'remote', undefined), flagVersion: fc.nat(5), experimentKey: fc.constant('exp-f') }, { requiredKeys: ['evaluationMode'] }).map(strip), { nil: undefined, freq: 8 }),
  dependencies: fc.constant(deps),
}).map(strip).map((f) => (deps.length ? f : (delete f.dependencies, f)));
/** flag map without dependency cycles (later keys may depend on earlier ones) */
export const flagMap = (keys = KEYS) => fc.subarray(keys).chain((ks) => fc.tuple(...ks.map((k, i) => fc.subarray(ks.slice(0, i)).chain((deps) => evalFlag(k, deps)))).chain((fs) => fc.shuffledSubarray(fs, { minLength: fs.length, maxLength: fs.length })).map((fs) => Object.fromEntries(fs.map((f) => [f.key, f]))));
export const user = () => fc.record({
  user_id: fc.constantFrom('u1', 'u2'), device_id: fc.constantFrom('d1', 'd2'), user_properties: fc.record({ plan: fc.constantFrom('a', 'b'), n: fc.nat(3) }, { requiredKeys: [] }),
  groups: fc.constantFrom({ org: ['amp'] }, { org: ['x'] }, { org: [] }), country: fc.constantFrom('US', 'DE'),
}, { requiredKeys: [] });
export const evalContext = (u) => {
  const c = { user: { user_properties: {}, ...(u || {}) } };
  if (u && u.groups && u.groups.org && u.groups.org[0]) c.groups = { org: { group_name: u.groups.org[0] } };
  return c;
};
