import { scopedBundle } from '../lib/build.mjs';
import { tagPage } from '../lib/taglight.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const NAMES = ['a', 'b', 'utm_source', 'PREVIEW', 'A', 'a b', 'ü', 'a[]', '', 'toString'];
const VALS = ['', '1', '2', 'x y', 'a+b', '&', '=', '%', '#', '?', 'ü', 'https://x.y/?z=1', '*'];
const param = (fc) => fc.tuple(fc.constantFrom(...NAMES), fc.constantFrom(...VALS));
const enc = (fc) => fc.constantFrom('plus', 'percent', 'bare');
const urlArb = (fc) => fc.record({
  host: fc.constantFrom('www.example.com', 'example.com', 'shop.example.com:8080', 'EXAMPLE.com'), proto: fc.constantFrom('https', 'http'),
  path: fc.oneof({ weight: 5, arbitrary: fc.constantFrom('', '/', '/p', '/p/', '/p/q', '/a.b', '/a(b)', '/a+b', '/%20x', '/ü', '/p//', '/a%2Fb', '/[x]', '/a$b^c', '/P', '/a|b', '/a{2}', '/a\\b') }, { weight: 1, arbitrary: fc.webPath() }),
  params: fc.array(param(fc), { maxLength: 4 }), how: enc(fc), hash: fc.constantFrom('', '', '#', '#top', '#/route', '#a?b=1', '#/r#x') });
const encode = (s, how) => (how === 'plus' ? encodeURIComponent(s).replace(/%20/g, '+') : encodeURIComponent(s));
const build = (u) => `${u.proto}://${u.host}${u.path}${u.params.length ? '?' + u.params.map(([k, v]) => (v === '' && u.how === 'bare' ? encode(k, u.how) : `${encode(k, u.how)}=${encode(v, u.how)}`)).join('&') : ''}${u.hash}`;
/** Reads a URL text by hand: [before ?, decoded parameters, fragment]. */
function parts(url) {
  const h = url.indexOf('#'); const frag = h < 0 ? '' : url.slice(h + 1); const rest = h < 0 ? url : url.slice(0, h);
  const q = rest.indexOf('?'); const base = q < 0 ? rest : rest.slice(0, q); const query = q < 0 ? '' : rest.slice(q + 1);
  const dec = (s) => decodeURIComponent(s.replace(/\+/g, ' '));
  return { base, params: query === '' ? [] : query.split('&').filter((x) => x !== '').map((x) => { const i = x.indexOf('='); return i < 0 ? [dec(x), ''] : [dec(x.slice(0, i)), dec(x.slice(i + 1))]; }), frag };
}
/** Canonical base as a browser writes it. */
const canon = (u) => parts(new URL(build({ ...u, params: [], hash: '' })).href).base;
const given = (u) => u.params.filter(([k, v]) => !(k === '' && v === '' && u.how === 'bare'));
const WHAT = {'concat': 'a redirect target gains the parameters of the current URL it does not set itself', 'remove': 'removal of named parameters leaves everything else', 'strip': 'dropping query, fragment or both, on URLs and non-URLs', 'match': 'URL patterns with * and trailing slashes vs a reference glob', 'read': 'parameters of the page URL as the page reads them'};
const P = (name, runs, arb, check, extra = {}) => ({ name, what: WHAT[name], sync: true, runs, arb, check(c, ctx, env) { env.U = env.U || tagPage({ bundle: env.bundle }).M.url; check(c, ctx, env.U, env); }, ...extra });
const N = { quick: 5000, thorough: 200000 };
/** glob match by dynamic programming: * is any run of characters */
function glob(pat, s) { let cur = new Set([0]); for (const ch of pat) { const next = new Set(); if (ch === '*') { const lo = Math.min(...cur); for (let i = lo; i <= s.length; i++) next.add(i); } else for (const i of cur) if (s[i] === ch) next.add(i + 1); cur = next; if (!cur.size) return false; } return cur.has(s.length); }
export default {
  id: 'T05', level: 'exploration',
  rule: 'a case is non-trivial when a URL has parameters or a fragment which the operation must keep, or a pattern matches by its wildcard or in spite of a trailing slash',
  assumptions: ['URLs are absolute and as normalized by the browser', 'patterns carry at most one wildcard'],
  async setup() { return { bundle: await scopedBundle('tag') }; },
  parts: [
    P('concat', N, (fc) => fc.record({ cur: urlArb(fc), to: urlArb(fc) }), (c, ctx, U) => {
      const got = parts(U.concatenateQueryParamsOf(build(c.cur), build(c.to)));
      const own = given(c.to), names = new Set(own.map(([k]) => k)); const gained = given(c.cur).filter(([k]) => !names.has(k));
      same(got.base, canon(c.to), 'redirect address'); same(got.params, [...own, ...gained], 'parameters after the redirect'); same(got.frag, parts(new URL(build(c.to)).href).frag, 'fragment of the redirect');
      ctx.nontrivial(own.length > 0 && gained.length > 0);
    }),
    P('remove', N, (fc) => fc.record({ url: urlArb(fc), names: fc.array(fc.constantFrom(...NAMES), { maxLength: 3 }) }), (c, ctx, U) => {
      const got = parts(U.removeQueryParams(build(c.url), c.names)); const left = given(c.url).filter(([k]) => !c.names.includes(k));
      same(got.base, canon(c.url), 'address'); same(got.params, left, 'parameters left'); same(got.frag, parts(new URL(build(c.url)).href).frag, 'fragment');
      ctx.nontrivial(left.length > 0 && left.length < given(c.url).length);
    }),
    P('strip', N, (fc) => urlArb(fc), (u, ctx, U) => {
      const href = new URL(build(u)).href, p = parts(href), hash = href.indexOf('#') < 0 ? '' : href.slice(href.indexOf('#'));
      same(U.urlWithoutParamsAndAnchor(build(u)), canon(u), 'URL without parameters and fragment');
      const nq = U.urlWithoutQuery(build(u)); same(nq.replace(/#$/, ''), (canon(u) + hash).replace(/#$/, ''), 'URL without parameters');
      const nh = U.urlWithoutHash(build(u)); same(nh.indexOf('#'), -1, 'fragment left'); same(parts(nh).params, p.params, 'parameters kept'); same(parts(nh).base, p.base, 'address kept');
      same([U.urlWithoutParamsAndAnchor(''), U.urlWithoutQuery(''), U.urlWithoutHash(''), U.urlWithoutQuery('not a url'), U.urlWithoutHash('not a url#x')], ['', '', '', 'not a url', 'not a url#x'], 'inputs which are no URLs');
      // idempotent, and equal for URLs which differ only in the ignored part
      same(U.urlWithoutParamsAndAnchor(canon(u)), canon(u), 'idempotence'); ctx.nontrivial(p.params.length > 0 || hash !== '');
    }),
    P('match', N, (fc) => fc.record({ url: urlArb(fc), others: fc.array(urlArb(fc), { maxLength: 2 }), at: fc.nat(40), len: fc.nat(12), star: fc.boolean(), slashP: fc.boolean(), slashU: fc.boolean(), self: fc.boolean(), swap: fc.option(fc.nat(40), { nil: undefined, freq: 4 }) }), (c, ctx, U) => {
      const href = canon(c.url).replace(/\*/g, '') + (c.slashU ? '/' : ''); const list = c.others.map((x) => canon(x).replace(/\*/g, ''));
      if (c.self) { let p = canon(c.url).replace(/\*/g, ''); if (c.star) p = p.slice(0, Math.min(c.at, p.length)) + '*' + p.slice(Math.min(c.at + c.len, p.length)); if (c.swap !== undefined && p.length) { const i = c.swap % p.length; const ch = p[i]; p = p.slice(0, i) + (ch === ch.toLowerCase() ? ch.toUpperCase() : ch.toLowerCase()) + p.slice(i + 1); } list.push(p + (c.slashP ? '/' : '')); }
      const bare = (s) => s.replace(/\/$/, ''); const want = list.some((p) => glob(bare(p), bare(href)) || glob(bare(p), bare(href) + '/'));
      same(U.matchesUrl(list, href), want, `${href} against ${show(list)}`); ctx.nontrivial(want && (c.star || c.slashP !== c.slashU)); ctx.cls('hit', want); ctx.cls('miss', !want);
    }, { expect: { hit: 0.2, miss: 0.2 } }),
    P('read', N, (fc) => urlArb(fc), (u, ctx, U, env) => {
      const page = tagPage({ bundle: env.bundle, url: build(u) }); const want = {}; for (const [k, v] of given(u)) Object.defineProperty(want, k, { value: v, enumerable: true, configurable: true, writable: true });
      same({ ...page.M.url.getUrlParams() }, want, `parameters of ${build(u)}`); ctx.nontrivial(given(u).length > 1);
    }, { runs: { quick: 1500, thorough: 50000 } }),
  ],
};
