import { scopedBundle } from '../lib/build.mjs';
import { tagPage, Clock, Jar } from '../lib/taglight.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const MIN = 60000, KEY = 'client-dep', COOKIE = 'EXP_client-dep_rtbt_session';
const HOSTS = ['www.example.com', 'shop.example.com', 'example.com', 'a.b.example.com', 'shop.co.uk', 'localhost'];
const gap = (fc) => fc.oneof(fc.constantFrom(0, 1, 1000, 29 * MIN, 30 * MIN - 1, 30 * MIN, 30 * MIN + 1, 31 * MIN, 24 * 60 * MIN), fc.nat(40 * MIN));
const junk = (fc) => fc.oneof(fc.constantFrom('', '%', '%7B', 'null', '1', '[]', '"x"', '{}', '{"sessionId":1,"lastEventTime":1}', '{"sessionId":"x"}', '{"sessionId":"old","lastEventTime":"1"}'), fc.string({ maxLength: 12 }).map((s) => encodeURIComponent(s)));
const opArb = (fc) => fc.oneof(
  { weight: 5, arbitrary: fc.record({ op: fc.constantFrom('activity', 'id'), page: fc.nat(1), gap: gap(fc) }) },
  { weight: 2, arbitrary: fc.record({ op: fc.constantFrom('start'), page: fc.nat(1), gap: gap(fc) }) },
  { weight: 2, arbitrary: fc.record({ op: fc.constant('load'), page: fc.nat(1), host: fc.nat(HOSTS.length - 1) }) },
  { weight: 1, arbitrary: fc.record({ op: fc.constant('corrupt'), value: junk(fc) }) },
  { weight: 1, arbitrary: fc.record({ op: fc.constant('legacy'), id: fc.constantFrom('s-a', 's-b'), ago: gap(fc), start: fc.boolean() }) },
  { weight: 1, arbitrary: fc.constantFrom({ op: 'lose' }, { op: 'clear', page: 0 }) });
const valid = (x) => x && typeof x === 'object' && typeof x.sessionId === 'string' && typeof x.lastEventTime === 'number';
function run(c, ctx, bundle, consent) {
  const clock = new Clock(); const jar = new Jar(clock); jar.blocked = !!c.blocked;
  const T = c.timeout || 30 * MIN;
  const pages = [null, null];
  let seen = new Set(), hosts = new Set(); let kept = 0, rotated = 0;
  // model: cookies per registrable scope, memory per page
  const stored = new Map(); // scope -> state | 'junk'
  const scopeOf = (h) => (h === 'localhost' ? h : h.endsWith('example.com') ? 'example.com' : h);
  const open = (i, h) => {
    const p = tagPage({ bundle, clock, jar, url: `https://${h}/` });
    if (consent) p.requireConsent();
    pages[i] = { p, s: new p.M.session.SessionManager(KEY, c.timeout), mem: undefined, host: h, scope: scopeOf(h), status: consent ? 'pending' : 'off', buffered: false };
    hosts.add(h);
  };
  open(0, HOSTS[c.host]); open(1, HOSTS[c.host2]);
  const withheld = (g) => g.status === 'pending' || g.status === 'denied';
  const device = (g) => { const d = stored.get(g.scope); return d && d !== 'junk' ? d : undefined; };
  const read = (g) => (!withheld(g) && !jar.blocked && device(g)) || g.mem;
  const write = (g, v) => { g.mem = v; if (g.status === 'pending') g.buffered = true; if (!withheld(g) && !jar.blocked) stored.set(g.scope, v); };
  const look = (g, actual, what) => {
    // returns the session the model expects now; `actual` names a new one
    const cur = read(g);
    if (cur && clock.now - cur.last <= T) { kept++; same(actual, cur.id, what); return cur; }
    if (seen.has(actual)) fail(`${what}: the session ${actual} was taken up again after more than the inactivity limit`);
    if (typeof actual !== 'string' || !actual) fail(`${what}: no session id (${show(actual)})`);
    rotated++;
    const v = { id: actual, start: clock.now, last: clock.now }; seen.add(actual); write(g, v); return v;
  };
  for (const o of c.ops) {
    if (o.gap) clock.now += o.gap;
    const g = pages[o.page ?? 0];
    if (o.op === 'load') { open(o.page, HOSTS[o.host]); continue; }
    if (o.op === 'corrupt' || o.op === 'legacy') {
      const text = o.op === 'corrupt' ? o.value : encodeURIComponent(JSON.stringify({ sessionId: o.id, lastEventTime: clock.now - o.ago, ...(o.start ? { sessionStartTime: clock.now - o.ago - 5 } : {}) }));
      const h = pages[0].host; const dom = pages[0].scope === 'localhost' ? '' : `; domain=.${pages[0].scope}`;
      if (!jar.blocked) jar.set(h, `${COOKIE}=${text}; path=/${dom}`);
      let v; try { v = JSON.parse(decodeURIComponent(text)); } catch { v = null; }
      if (!jar.blocked) { stored.set(pages[0].scope, valid(v) ? { id: v.sessionId, start: typeof v.sessionStartTime === 'number' ? v.sessionStartTime : v.lastEventTime, last: v.lastEventTime } : 'junk'); if (valid(v)) seen.add(v.sessionId); }
      continue;
    }
    if (o.op === 'lose') { jar.drop(() => true); stored.clear(); continue; }
    if (o.op === 'clear') { g.s.clearSession(); g.mem = undefined; if (g.status !== 'pending' && !jar.blocked) stored.delete(g.scope); continue; }
    if (o.op === 'grant' || o.op === 'deny') {
      const to = o.op === 'grant' ? 'granted' : 'denied'; if (g.status === to) continue;
      const first = g.status === 'pending'; g.p.consent(to); g.status = to;
      if (first && to === 'granted' && g.buffered && g.mem) write(g, g.mem);
      continue;
    }
    if (o.op === 'id') { look(g, g.s.getCurrentSessionId(), `session id on ${g.host}`); continue; }
    if (o.op === 'start') { const at = g.s.getSessionStartTime(); const cur = look(g, g.s.getCurrentSessionId(), `session id on ${g.host}`); same(at, cur.start, 'session start'); continue; }
    // activity: extends or rotates, then the id is the extended session
    const before = read(g); g.s.recordActivity();
    if (before && clock.now - before.last <= T) write(g, { ...before, last: clock.now });
    const cur = look(g, g.s.getCurrentSessionId(), `session id after activity on ${g.host}`);
    same(g.s.getSessionStartTime(), cur.start, 'session start after activity');
  }
  if (withheld(pages[0]) && withheld(pages[1])) ctx.cls('withheld-at-end');
  ctx.nontrivial(kept > 0 && rotated > 1); ctx.cls('rotated', rotated > 2); ctx.cls('hosts', hosts.size > 1);
}
const base = (fc, extra) => ({ host: fc.nat(HOSTS.length - 1), host2: fc.nat(HOSTS.length - 1), timeout: fc.option(fc.constantFrom(1000, 30 * MIN), { nil: undefined, freq: 4 }), blocked: fc.integer({ min: 0, max: 7 }).map((n) => n === 7), ops: fc.array(extra ? fc.oneof({ weight: 4, arbitrary: opArb(fc) }, { weight: 1, arbitrary: fc.record({ op: fc.constantFrom('grant', 'grant', 'deny'), page: fc.nat(1) }) }) : opArb(fc), { minLength: 3, maxLength: 22, size: 'max' }) });
export default {
  id: 'T12', level: 'exploration',
  rule: 'a case is non-trivial when a session is both kept over a gap and replaced after one',
  assumptions: ['cookies follow browser scoping rules; a session cookie of the deployment is shared by the subdomains of one site', 'the clock does not run backwards'],
  async setup() { return { bundle: await scopedBundle('tag') }; },
  parts: [
    { name: 'sessions', what: 'activity, reads, loads on several hosts, corrupt, legacy and lost cookies', sync: true, runs: { quick: 4000, thorough: 150000 }, expect: { rotated: 0.2 }, arb: (fc) => fc.record(base(fc)), check: (c, ctx, env) => run(c, ctx, env.bundle, false) },
    { name: 'consent', what: 'the same with consent pending, granted and denied', sync: true, runs: { quick: 3000, thorough: 100000 }, expect: { rotated: 0.2 }, arb: (fc) => fc.record(base(fc, true)), check: (c, ctx, env) => run(c, ctx, env.bundle, true) },
  ],
};
