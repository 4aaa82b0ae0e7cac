import { scopedBundle } from '../lib/build.mjs';
import { tagPage, Clock, Jar } from '../lib/taglight.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const KEYS = ['EXP_client-dep_identity', 'EXP_client-dep_identity2', 'identity', 'EXP'];
const HOSTS = ['www.example.com', 'example.com', 'a.b.example.com', 'shop.co.uk', 'www.shop.co.uk', 'my.vercel.app', 'x.my.vercel.app', 'localhost', 'WWW.Example.com', 'my.fly.dev', 'x.y.my.fly.dev', 'a.b.c', 'stackco.uk', 'www.stackco.uk'];
const val = (fc) => fc.oneof(fc.string({ maxLength: 12 }), fc.string({ unit: 'grapheme', maxLength: 6 }), fc.constantFrom('', ' ', ';', '=', '; path=/x', '%', '%41', '%ZZ', '"q"', ',', '日本', '😀', 'a=b; c=d', '\n', '\u0000', '\ud800'), fc.json({ maxDepth: 2 }), fc.integer({ min: 3000, max: 5000 }).map((n) => 'x'.repeat(n)));
const foreign = (fc) => fc.tuple(fc.constantFrom('x', 'EXP_client', 'EXP_client-dep_identityX', 'xEXP_client-dep_identity', ''), fc.constantFrom('1', '', 'a=b', '%', 'EXP_client-dep_identity=1')).map(([n, v]) => (n === '' ? ['', '1'] : [n, v]));
const reg = (h) => { const H = h.toLowerCase(); return H === 'localhost' ? '' : H.endsWith('example.com') ? '.example.com' : H.endsWith('stackco.uk') ? '.stackco.uk' : H.endsWith('co.uk') ? '.shop.co.uk' : H.endsWith('fly.dev') ? '.my.fly.dev' : H === 'a.b.c' ? '.a.b.c' : '.my.vercel.app'; };
const opArb = (fc) => fc.oneof({ weight: 5, arbitrary: fc.record({ op: fc.constant('write'), key: fc.nat(KEYS.length - 1), value: val(fc), age: fc.constantFrom(undefined, undefined, 60, 0) }) }, { weight: 2, arbitrary: fc.record({ op: fc.constant('delete'), key: fc.nat(KEYS.length - 1) }) }, { weight: 2, arbitrary: fc.record({ op: fc.constant('time'), ms: fc.constantFrom(1000, 59000, 61000) }) }, { weight: 1, arbitrary: fc.record({ op: fc.constant('foreign'), f: foreign(fc) }) }, { weight: 1, arbitrary: fc.constantFrom({ op: 'block', on: true }, { op: 'block', on: false }) });
export default {
  id: 'T14', level: 'exploration',
  rule: 'a case is non-trivial when a written value needs escaping or a value is overwritten, removed or expires (raw), a cookie competes with another copy (resolve), or a deeper host is used (levels)',
  assumptions: ['cookies follow browser scoping, size and expiry rules; a value holding a lone surrogate or exceeding the size limit is reported as not written'],
  async setup() { return { bundle: await scopedBundle('tag') }; },
  parts: [{
    name: 'raw', what: 'writes, removals, expiry, foreign cookies and blocked cookie access', sync: true, runs: { quick: 3500, thorough: 120000 },
    arb: (fc) => fc.record({ host: fc.nat(HOSTS.length - 1), http: fc.boolean(), ops: fc.array(opArb(fc), { minLength: 1, maxLength: 10, size: 'max' }) }),
    check(c, ctx, { bundle }) {
      const clock = new Clock(); const jar = new Jar(clock); const host = HOSTS[c.host].toLowerCase(); const page = tagPage({ bundle, clock, jar, url: `${c.http ? 'http' : 'https'}://${host}/` }); const C = page.M.cookie; const domain = C.getTopLevelDomainSync(host);
      same(domain, reg(host), `cookie scope of ${host}`); same(jar.dump(), [], 'cookies left behind by probing');
      const m = new Map(); let odd = 0; const f = new Map();
      for (const o of c.ops) {
        const k = KEYS[o.key];
        if (o.op === 'write') {
          const ok = C.writeRawCookie(k, o.value, { domain: domain || undefined, maxAgeSeconds: o.age });
          let enc; try { enc = encodeURIComponent(o.value); } catch { enc = null; }
          const fits = enc !== null && k.length + enc.length <= 4096; const landed = !jar.blocked && fits && o.age !== 0;
          if (enc !== null && !jar.blocked && fits) { if (o.age === 0) m.delete(k); else m.set(k, { v: o.value, until: o.age === undefined ? Infinity : clock.now + o.age * 1000 }); }
          if (landed && !ok) fail(`writing ${show(o.value)} reported failure`); if (!landed && ok && !(m.has(k) && m.get(k).v === o.value && !jar.blocked)) fail(`writing ${show(o.value)} reported success but nothing was stored`);
          if (enc !== o.value) odd++;
        } else if (o.op === 'delete') { C.deleteRawCookie(k, domain || undefined); if (!jar.blocked) m.delete(k); }
        else if (o.op === 'time') { clock.now += o.ms; }
        else if (o.op === 'foreign') { if (!jar.blocked) { jar.set(host, `${o.f[0]}=${o.f[1]}; path=/`); if (o.f[0]) f.set(o.f[0], o.f[1]); } }
        else jar.blocked = o.on;
        for (const key of KEYS) { const e = m.get(key); if (e && e.until <= clock.now) m.delete(key); same(C.readRawCookie(key), jar.blocked ? undefined : m.has(key) ? m.get(key).v : undefined, `cookie ${key} after ${show(o)}`); }
        if (!jar.blocked) for (const [n, v] of f) same(jar.get(host, n), v, `foreign cookie ${n}`);
      }
      ctx.nontrivial(odd > 0);
    },
  }, {
    name: 'levels', what: 'candidate scopes of a host name, broadest first', sync: true, runs: { quick: 3000, thorough: 50000 },
    arb: (fc) => fc.record({ labels: fc.array(fc.constantFrom('www', 'a', 'shop', 'x-1', 'B'), { maxLength: 4 }), tail: fc.constantFrom('example.com', 'shop.co.uk', 'my.vercel.app', 'x.github.io', 'site.com.au', 'example.org', 'stackco.uk', 'mygov.au', 'localhost') }),
    check(c, ctx, env) {
      const page = env.page || (env.page = tagPage({ bundle: env.bundle })); const tail = c.tail; const host = [...c.labels, tail].join('.'); const got = page.M.cookie.getCookieDomainLevels(host);
      if (tail === 'localhost' && !c.labels.length) { same(got, [], 'scopes of a single-label host'); return; }
      if (tail === 'localhost') return;
      const want = []; for (let i = c.labels.length; i >= 0; i--) want.push([...c.labels.slice(i), tail].join('.').toLowerCase());
      same(got, want, `scopes of ${host}`); same(page.M.cookie.getCookieDomainLevels(''), [], 'scopes of no host'); ctx.nontrivial(c.labels.length > 0);
    },
  }, {
    name: 'resolve', what: 'identity fields from cookie, fallback and generators', runs: { quick: 3000, thorough: 100000 }, expect: { partial: 0.05 },
    arb: (fc) => fc.record({ cookie: fc.oneof(fc.dictionary(fc.constantFrom('a', 'b', 'other'), fc.oneof(fc.constantFrom('v1', 'v2', ''), fc.constantFrom(1, null, true)), { maxKeys: 3 }), fc.constantFrom('none', '{', 'null', '5', '"x"', '[]', '[1]')), fallback: fc.record({ a: fc.constantFrom('f1', undefined), b: fc.constantFrom('f2', undefined) }, { requiredKeys: [] }), fails: fc.constantFrom('no', 'no', 'no', 'get', 'set', 'both'), again: fc.boolean() }),
    async check(c, ctx, env) {
      const page = env.page || (env.page = tagPage({ bundle: env.bundle })); let text = typeof c.cookie === 'string' ? (c.cookie === 'none' ? undefined : c.cookie) : JSON.stringify(c.cookie); const initial = text; let sets = 0;
      const store = { get: async () => { if (c.fails === 'get' || c.fails === 'both') throw new Error('blocked'); return text; }, set: async (k, v) => { sets++; same(k, 'K', 'cookie written'); if (c.fails === 'set' || c.fails === 'both') throw new Error('blocked'); text = v; }, remove: async () => {} };
      let g = 0; const gen = { a: () => 'gen-a' + g++, b: () => 'gen-b' + g++ };
      const r = await page.M.cookie.resolveCrossSubdomainObject(store, 'K', c.fallback, gen);
      const readable = c.fails === 'no' || c.fails === 'set'; let cur = {}; if (readable && initial !== undefined) { try { const p = JSON.parse(initial); if (p && typeof p === 'object') cur = p; } catch { /* malformed */ } }
      const kept = ['a', 'b'].filter((k) => typeof cur[k] === 'string' && cur[k]);
      same(Object.keys(r).sort(), ['a', 'b'], 'resolved fields');
      for (const k of ['a', 'b']) { if (kept.includes(k)) same(r[k], cur[k], `${k} from the cookie`); else if (c.fallback[k]) same(r[k], c.fallback[k], `${k} from the fallback`); else if (!String(r[k]).startsWith('gen-' + k)) fail(`${k} was not generated: ${show(r[k])}`); }
      same(sets, kept.length === 2 ? 0 : 1, 'writes'); if (sets && readable && c.fails === 'no') same(JSON.parse(text), r, 'cookie written');
      if (c.fails === 'no') { const r2 = await page.M.cookie.resolveCrossSubdomainObject(store, 'K', { a: 'later', b: 'later' }, gen); same(r2, r, 'resolved again'); same(sets, kept.length === 2 ? 0 : 1, 'writes on a second resolution'); }
      ctx.nontrivial(kept.length === 1 || Object.keys(c.fallback).length > 0); ctx.cls('partial', kept.length === 1);
    },
  }, {
    name: 'json', what: 'JSON cookies shared by pages of one site, with corruption, validation and blocked access', sync: true, runs: { quick: 2500, thorough: 80000 },
    arb: (fc) => fc.record({ hosts: fc.tuple(fc.constantFrom('www.example.com', 'example.com', 'a.b.example.com'), fc.constantFrom('www.example.com', 'shop.example.com')), ops: fc.array(fc.oneof({ weight: 4, arbitrary: fc.record({ op: fc.constant('write'), p: fc.nat(1), v: fc.oneof(fc.record({ n: fc.integer(), s: fc.string({ unit: 'grapheme', maxLength: 5 }) }), fc.record({ s: fc.integer({ min: 4000, max: 4200 }).map((n) => 'y'.repeat(n)) })) }) }, { weight: 1, arbitrary: fc.record({ op: fc.constantFrom('clear', 'load'), p: fc.nat(1) }) }, { weight: 1, arbitrary: fc.record({ op: fc.constant('junk'), t: fc.constantFrom('', '{', '%', 'null', '%7B%22bad%22%3A1%7D', '5') }) }), { minLength: 2, maxLength: 10, size: 'max' }) }),
    check(c, ctx, { bundle }) {
      const clock = new Clock(); const jar = new Jar(clock); let disk; const pages = [];
      const validate = (v) => (v && typeof v === 'object' && typeof v.s === 'string' ? v : undefined);
      const open = (i) => { const p = tagPage({ bundle, clock, jar, url: `https://${c.hosts[i]}/` }); pages[i] = { s: new p.M.cookie.SyncJsonCookie('J', () => '.example.com', { validate }), mem: undefined, usable: true }; };
      open(0); open(1); let reads = 0;
      for (const o of c.ops) {
        const g = pages[o.p ?? 0];
        if (o.op === 'load') open(o.p);
        else if (o.op === 'clear') { g.s.clear(); g.mem = undefined; disk = undefined; }
        else if (o.op === 'junk') { jar.set(c.hosts[0], `J=${o.t}; path=/; domain=.example.com`); disk = undefined; }
        else { g.s.write(o.v); g.mem = o.v; let e = null; try { e = encodeURIComponent(JSON.stringify(o.v)); } catch { /* lone surrogate */ } if (g.usable) { if (e !== null && e.length + 1 <= 4096) disk = o.v; else g.usable = false; } }
        pages.forEach((q, i) => { const want = q.usable && disk !== undefined ? disk : q.mem; same(q.s.read(), want, `value read by page ${i} after ${show(o)}`); if (want) reads++; });
      }
      ctx.nontrivial(reads > 2);
    },
  }],
};
