// Independent reference semantics of flag evaluation. Written from the
// documented meaning (first matching segment, OR of ANDs, buckets), in a
// different style from the engine, over JSON-like values.
const has = (o, k) => Object.prototype.hasOwnProperty.call(o, k);

/** MurmurHash3 x86 32-bit over bytes (reference formulation with BigInt-free 16-bit multiplies). */
function mul32(a, b) { const al = a & 0xffff, ah = a >>> 16; return ((al * b) + ((((ah * b) & 0xffff) << 16) >>> 0)) >>> 0; }
function mulFull(a, b) { return Number((BigInt(a >>> 0) * BigInt(b >>> 0)) & 0xffffffffn); }
export function murmur3(text, seed = 0) {
  const bytes = Buffer.from(text, 'utf8');
  const n = bytes.length;
  const rotl = (x, r) => ((x * 2 ** r) % 2 ** 32 + Math.floor(x / 2 ** (32 - r))) % 2 ** 32;
  let h = seed >>> 0;
  let i = 0;
  for (; i + 4 <= n; i += 4) {
    let k = bytes.readUInt32LE(i);
    k = mulFull(k, 0xcc9e2d51); k = rotl(k, 15); k = mulFull(k, 0x1b873593);
    h = (h ^ k) >>> 0; h = rotl(h, 13); h = (mulFull(h, 5) + 0xe6546b64) % 2 ** 32;
  }
  if (i < n) {
    let k = 0;
    for (let j = n - 1; j >= i; j--) k = k * 256 + bytes[j];
    k = mulFull(k, 0xcc9e2d51); k = rotl(k, 15); k = mulFull(k, 0x1b873593);
    h = (h ^ k) >>> 0;
  }
  h = (h ^ n) >>> 0;
  h = (h ^ (h >>> 16)) >>> 0; h = mulFull(h, 0x85ebca6b);
  h = (h ^ (h >>> 13)) >>> 0; h = mulFull(h, 0xc2b2ae35);
  h = (h ^ (h >>> 16)) >>> 0;
  return h;
}

export function lookup(root, path) {
  if (!path || path.length === 0) return undefined;
  let v = root;
  for (const step of path) {
    if (v === null || typeof v !== 'object' || step === '') return undefined;
    v = has(v, step) ? v[step] : Array.isArray(v) && step === 'length' ? v.length : undefined;
  }
  return v === null ? undefined : v;
}
const text = (v) => (v !== null && typeof v === 'object' ? JSON.stringify(v) : String(v));

/** undefined when the value is not a list. */
function asList(v) {
  let arr;
  if (Array.isArray(v)) arr = v;
  else {
    const s = String(v);
    if (s[0] !== '[') return undefined;
    try { arr = JSON.parse(s); } catch { return undefined; }
    if (!Array.isArray(arr)) return undefined;
  }
  return arr.filter((e) => e !== null && e !== undefined).map(text).filter((s) => s !== '');
}
const isBoolText = (s) => /^(true|false)$/i.test(s);
/** equality of texts, letter case ignored among boolean texts */
const eqText = (a, b) => a === b || (isBoolText(a) && isBoolText(b) && a.toLowerCase() === b.toLowerCase());

export function parseVersion(s) {
  const m = /^(\d+)\.(\d+)(?:\.(\d+)(-(?:[-\w]+(?:\.[-\w]+)*\.?)?)?)?$/.exec(s);
  if (!m) return undefined;
  return { n: [m[1], m[2], m[3] || '0'].map((x) => BigInt(x)), pre: m[4] || '' };
}
export function cmpVersion(a, b) {
  for (let i = 0; i < 3; i++) if (a.n[i] !== b.n[i]) return a.n[i] < b.n[i] ? -1 : 1;
  if (a.pre === b.pre) return 0;
  if (!a.pre) return 1;
  if (!b.pre) return -1;
  return a.pre < b.pre ? -1 : 1;
}
const rel = { less: (c) => c < 0, 'less or equal': (c) => c <= 0, greater: (c) => c > 0, 'greater or equal': (c) => c >= 0 };
const POS_NULL = new Set(['is', 'contains', 'less', 'less or equal', 'greater', 'greater or equal', 'version less', 'version less or equal', 'version greater', 'version greater or equal', 'set is', 'set contains', 'set contains any']);
const NEG_NULL = new Set(['is not', 'does not contain', 'set does not contain', 'set does not contain any']);

function scalarMatch(s, op, values) {
  switch (op) {
    case 'is': return values.some((v) => eqText(s, v));
    case 'is not': return !values.some((v) => eqText(s, v));
    case 'contains': return values.some((v) => s.toLowerCase().indexOf(v.toLowerCase()) !== -1);
    case 'does not contain': return !values.some((v) => s.toLowerCase().indexOf(v.toLowerCase()) !== -1);
    case 'regex match': return values.some((v) => new RegExp(v).test(s));
    case 'regex does not match': return !values.some((v) => new RegExp(v).test(s));
    default: break;
  }
  if (has(rel, op)) {
    const x = Number(s);
    return values.some((v) => { const y = Number(v); return !(Number.isNaN(x) || Number.isNaN(y)) && rel[op](x < y ? -1 : x > y ? 1 : 0); });
  }
  if (op.startsWith('version ') && has(rel, op.slice(8))) {
    const r = rel[op.slice(8)];
    const x = parseVersion(s);
    const ys = values.map(parseVersion).filter(Boolean);
    if (!x || ys.length === 0) return values.some((v) => r(s < v ? -1 : s > v ? 1 : 0));
    return ys.some((y) => r(cmpVersion(x, y)));
  }
  return false;
}
export function conditionMatches(value, op, values) {
  if (value === undefined || value === null) {
    if (POS_NULL.has(op)) return values.includes('(none)');
    if (NEG_NULL.has(op)) return !values.includes('(none)');
    return false;
  }
  const list = asList(value);
  if (op.startsWith('set ')) {
    if (!list) return false;
    const all = () => list.length >= values.length && values.every((v) => list.some((e) => eqText(v, e)));
    const any = () => values.some((v) => list.some((e) => eqText(v, e)));
    const equal = () => list.every((e) => values.includes(e)) && values.every((v) => list.includes(v));
    switch (op) {
      case 'set is': return equal();
      case 'set is not': return !equal();
      case 'set contains': return all();
      case 'set does not contain': return !all();
      case 'set contains any': return any();
      case 'set does not contain any': return !any();
      default: return false;
    }
  }
  if (list) return list.some((e) => scalarMatch(e, op, values));
  return scalarMatch(text(value), op, values);
}
export function bucketOf(target, segment) {
  const b = segment.bucket;
  if (!b) return segment.variant;
  const raw = lookup(target, b.selector);
  const value = raw === undefined ? '' : text(raw);
  if (value === '') return segment.variant;
  const h = murmur3(`${b.salt}/${value}`);
  const pct = h % 100, dist = (h - pct) / 100;
  const within = (x, [lo, hi]) => lo <= x && x < hi;
  for (const a of b.allocations) {
    if (!within(pct, a.range)) continue;
    const d = a.distributions.find((q) => within(dist, q.range));
    if (d) return d.variant;
  }
  return segment.variant;
}
export function segmentMatches(target, seg) {
  if (!seg.conditions) return true;
  return seg.conditions.some((group) => group.every((c) => conditionMatches(lookup(target, c.selector), c.op, c.values)));
}
export function evaluateFlag(target, flag) {
  for (const seg of flag.segments) {
    if (!segmentMatches(target, seg)) continue;
    const key = bucketOf(target, seg);
    if (key === undefined || key === null || !has(flag.variants, key)) continue;
    const variant = flag.variants[key];
    if (!variant) continue;
    return { variant: { ...variant, metadata: { ...(flag.metadata || {}), ...(seg.metadata || {}), ...(variant.metadata || {}) } }, segment: seg };
  }
  return undefined;
}
/** flags in order; later flags see the results of earlier ones */
export function evaluate(context, flags) {
  const result = {};
  for (const f of flags) {
    const r = evaluateFlag({ context, result }, f);
    if (r) result[f.key] = r.variant;
  }
  return result;
}
/** Order independent dependency closure check helpers */
export function closure(flags, keys) {
  const seen = new Set();
  const stack = keys.filter((k) => has(flags, k));
  while (stack.length) {
    const k = stack.pop();
    if (seen.has(k)) continue;
    seen.add(k);
    for (const d of flags[k].dependencies || []) if (has(flags, d)) stack.push(d);
  }
  return seen;
}
/** true when a dependency cycle is reachable from the keys */
export function hasCycle(flags, keys) {
  const color = {};
  const visit = (k) => {
    if (!has(flags, k)) return false;
    if (color[k] === 1) return true;
    if (color[k] === 2) return false;
    color[k] = 1;
    for (const d of flags[k].dependencies || []) if (visit(d)) return true;
    color[k] = 2;
    return false;
  };
  return keys.some(visit);
}
/** a dependency order (stable with respect to the listing) of an acyclic set */
export function order(flags, keys) {
  const out = [], done = new Set();
  const visit = (k) => {
    if (!has(flags, k) || done.has(k)) return;
    done.add(k);
    for (const d of flags[k].dependencies || []) visit(d);
    out.push(flags[k]);
  };
  keys.forEach(visit);
  return out;
}
