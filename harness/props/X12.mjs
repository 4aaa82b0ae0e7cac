import { scopedBundle } from '../lib/build.mjs';
import { clientPage, Clock, CookieJar, MemStorage } from '../lib/client.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const KEYS = ['client-abcdefghijkl', 'short', 'client-abcdefghijkl'];
// the part of a user agent which names the browser, and what it means: [make(version), browser, os text, device model, category]
const WIN = 'Mozilla/5.0 (Windows NT 10.0; Win64; x64)', MAC = 'Mozilla/5.0 (Macintosh; Intel Mac OS X 10_15_7)', DROID = 'Mozilla/5.0 (Linux; Android 13; Pixel 7)', IOS = 'Mozilla/5.0 (iPhone; CPU iPhone OS 17_0 like Mac OS X)';
const AGENTS = [
  [(v) => `${WIN} AppleWebKit/537.36 (KHTML, like Gecko) Chrome/${v}.0.0.0 Safari/537.36`, 'Chrome', 'Chrome', 'Windows', 'desktop'],
  [(v) => `${DROID} AppleWebKit/537.36 (KHTML, like Gecko) Chrome/${v}.0.0.0 Mobile Safari/537.36`, 'Chrome', 'Chrome', 'Android', 'mobile'],
  [(v) => `${IOS} AppleWebKit/605.1.15 (KHTML, like Gecko) CriOS/${v}.0.6045.109 Mobile/15E148 Safari/604.1`, 'Chrome', 'Chrome', 'iOS', 'mobile'],
  [(v) => `${MAC} AppleWebKit/605.1.15 (KHTML, like Gecko) Version/${v}.1 Safari/605.1.15`, 'Safari', 'Safari', 'Mac OS', 'desktop'],
  [(v) => `${IOS} AppleWebKit/605.1.15 (KHTML, like Gecko) Version/${v}.0 Mobile/15E148 Safari/604.1`, 'Safari', 'Mobile Safari', 'iOS', 'mobile'],
  [(v) => `Mozilla/5.0 (iPad; CPU OS 16_6 like Mac OS X) AppleWebKit/605.1.15 (KHTML, like Gecko) Version/${v}.6 Mobile/15E148 Safari/604.1`, 'Safari', 'Mobile Safari', 'iOS', 'tablet'],
  [(v) => `${WIN.replace(')', '; rv:109.0)')} Gecko/20100101 Firefox/${v}.0`, 'Firefox', 'Firefox', 'Windows', 'desktop'],
  [(v) => `Mozilla/5.0 (Android 13; Mobile; rv:109.0) Gecko/${v}.0 Firefox/${v}.0`, 'Firefox', 'Firefox', 'Android', 'mobile'],
  [(v) => `${WIN} AppleWebKit/537.36 (KHTML, like Gecko) Chrome/120.0.0.0 Safari/537.36 Edg/${v}.0.2210.61`, 'Edge', 'Edge', 'Windows', 'desktop'],
  [(v) => `${WIN} AppleWebKit/537.36 (KHTML, like Gecko) Chrome/118.0.0.0 Safari/537.36 OPR/${v}.0.0.0`, 'Opera', 'Opera', 'Windows', 'desktop'],
  [(v) => `${DROID} AppleWebKit/537.36 (KHTML, like Gecko) SamsungBrowser/${v}.0 Chrome/115.0.0.0 Mobile Safari/537.36`, 'Samsung Browser', 'Samsung Browser', 'Android', 'mobile'],
  [(v) => `Mozilla/5.0 (Linux; Android 10; Pixel 3; wv) AppleWebKit/537.36 (KHTML, like Gecko) Version/4.0 Chrome/${v}.0.4324.93 Mobile Safari/537.36`, 'Chrome', 'Chrome WebView', 'Android', 'mobile'],
  [(v) => `Mozilla/5.0 (X11; Ubuntu) AppleWebKit/537.36 (KHTML, like Gecko) Chromium/${v}.0.4324.93 Safari/537.36`, 'Chrome', 'Chromium', 'Ubuntu', 'desktop'],
  [(v) => `Opera/9.80 (Android; Opera Mobi/27; U; en) Presto/2.4 Version/${v}.5`, 'Opera', 'Opera Mobi', 'Android', 'desktop']];
const NAMES = ['a', 'b', 'utm_source', 'a b', 'é', 'constructor', 'toString', '__proto__', 'x[]'];
const value = (fc) => fc.oneof({ weight: 5, arbitrary: fc.constantFrom('1', '2', 'x', 'summer', '') }, { weight: 3, arbitrary: fc.array(fc.constantFrom('1', '2', 'x', ''), { minLength: 2, maxLength: 3 }).map((l) => l.join(',')) }, { weight: 2, arbitrary: fc.constantFrom('a=b', 'é日', 'a b', '100%', '+', '&', 'a#b', '😀', 'https://x.y/?q=1,2') });
const cookieValue = (fc) => fc.oneof(fc.constantFrom('1', 'x', '', 'abc.def'), fc.constantFrom('dGVzdA==', 'eyJhIjoxfQ=', 'a=b', '=', 'a=b&c=d', '%7B%22a%22%3A1%7D', '"q"'));
const COOKIES = ['session', 'c1', '_ga', 'constructor', 'AMP_x'];
const visit = (fc) => fc.record({ op: fc.constant('open'), tab: fc.constantFrom('same', 'same', 'new'), host: fc.constantFrom('https://www.example.com', 'https://shop.example.com'), path: fc.constantFrom('/', '/a', '/a/', '/a/b'), slash: fc.boolean(), params: fc.array(fc.tuple(fc.constantFrom(...NAMES), value(fc)), { maxLength: 4 }), hash: fc.constantFrom('', '', '#h', '#/'), referrer: fc.constantFrom('', 'https://www.google.com/', 'https://a.b/c', 'https://a.b/c/', 'https://a.b/?x=/', 'https://www.example.com/a'), agent: fc.nat(AGENTS.length - 1), version: fc.integer({ min: 3, max: 250 }), languages: fc.constantFrom(['en-US'], ['fr-CA', 'en'], ['de'], [], undefined), language: fc.constantFrom('es', 'pt-BR', undefined), cookies: fc.uniqueArray(fc.tuple(fc.constantFrom(...COOKIES), cookieValue(fc)), { maxLength: 3, selector: (x) => x[0] }), key: fc.nat(2), provider: fc.constantFrom(undefined, undefined, undefined, {}, { user_id: 'u', language: 'tlh', cookie: { own: '1' } }, { landing_url: 'https://mine/', url_param: { mine: '1' } }) });
const opArb = (fc) => fc.oneof({ weight: 5, arbitrary: visit(fc) }, { weight: 3, arbitrary: fc.record({ op: fc.constant('go'), path: fc.constantFrom('/a', '/z?b=9', '/z?a=1&a=2,3', '/', '/q?constructor=1') }) }, { weight: 2, arbitrary: fc.record({ op: fc.constant('wait'), ms: fc.constantFrom(1, 1500, 86400000) }) }, { weight: 1, arbitrary: fc.record({ op: fc.constant('put'), where: fc.constantFrom('local', 'session'), text: fc.constantFrom('null', '5', '"x"', '[]', '{', 'true', '', '{}', '{"other":1}', '{"first_seen":"12.5"}', '{"landing_url":null}', '{"landing_url":"","first_seen":""}', '{"first_seen":null,"landing_url":"https://www.example.com/b"}', '{"landing_url":"https://www.example.com/stored"}') }) }, { weight: 1, arbitrary: fc.constant({ op: 'look' }) });
const trim = (s) => (s.endsWith('/') ? s.slice(0, -1) : s);
const object = (text) => { if (!text) return {}; try { const o = JSON.parse(text); return o && typeof o === 'object' && !Array.isArray(o) ? o : {}; } catch { return {}; } };
/** the parameters of a URL, repeated and comma separated ones as lists */
function paramsOf(url) { const m = new Map(); for (const [n, v] of new URL(url).searchParams) m.set(n, [...(m.get(n) || []), ...v.split(',')]); return m; }
const local = new Map(), sess = new Map();
async function check(c, ctx, { bundle }) {
  const clock = new Clock(); local.clear(); sess.clear(); const records = { local: new Map(), session: new Map() }; let page, provider, visitNow, client, kept = 0, odd = 0, eq = 0, bad = 0, lists = 0;
  const store = (m, o) => { if (!m.has(o)) m.set(o, new MemStorage()); return m.get(o); };
  const look = () => {
    const s = visitNow, href = page.scope.location.href, origin = page.scope.location.origin, record = `EXP_${KEYS[s.key].slice(0, 10)}_DEFAULT_USER_PROVIDER`;
    const lr = object(store(local, origin).getItem(record)), sr = object(store(sess, origin).getItem(record));
    const user = provider.getUser(); const a = AGENTS[s.agent]; const own = s.provider || {};
    const m = paramsOf(href);
    const seenText = lr.first_seen || String(clock.now / 1000), landing = sr.landing_url || trim(href);
    if (lr.first_seen || sr.landing_url) kept++;
    const want = { language: (s.languages && s.languages[0]) || s.language || '', platform: 'Web', os: `${a[2]} ${s.version}`, device_model: a[3], device_category: a[4], browser: a[1], referring_url: trim(s.referrer), user_agent: a[0](s.version), landing_url: landing, first_seen: seenText };
    for (const k of Object.keys(want)) same(user[k], k in own ? own[k] : want[k], `${k} at ${href}`);
    if (own.user_id) same(user.user_id, own.user_id, 'user_id of the given provider');
    const compare = (got, entries, what) => { const o = got || {}; same(Object.keys(o).sort(), [...entries.keys()].sort(), `names in ${what} at ${href}`); for (const [n, v] of entries) { same(Object.getOwnPropertyDescriptor(o, n).value, v, `${what} ${n} at ${href}`); } };
    if (own.url_param) same(user.url_param, own.url_param, 'url_param of the given provider');
    else compare(user.url_param, new Map([...m].map(([n, l]) => { if (l.length > 1) lists++; return [n, l.length === 1 ? l[0] : l]; })), 'url_param');
    const jar = new Map(s.cookies); if (s.cookies.some(([, v]) => v.includes('='))) eq++; if ([...m.keys()].some((n) => n in {})) odd++;
    if (own.cookie) same(user.cookie, own.cookie, 'cookie of the given provider'); else if (jar.size || user.cookie !== undefined) compare(user.cookie, jar, 'cookie');
    // what is remembered
    same(object(store(local, origin).getItem(record)).first_seen, seenText, 'stored first_seen'); same(object(store(sess, origin).getItem(record)).landing_url, landing, 'stored landing_url');
    if (lr.other !== undefined) same(object(store(local, origin).getItem(record)).other, lr.other, 'other data in the stored record');
    // what targeting sees
    for (const f of FLAGS) { const [kind, name, want2] = f.test; const src = kind === 'url_param' ? (own.url_param ? new Map(Object.entries(own.url_param)) : new Map([...m].map(([n, l]) => [n, l.length === 1 ? l[0] : l]))) : kind === 'cookie' ? (own.cookie ? new Map(Object.entries(own.cookie)) : jar) : new Map(Object.entries({ ...want, ...own })); const x = name === undefined ? src.get(kind) : src.get(name); if (Array.isArray(x)) continue; same(client.variant(f.key).key, x === want2 ? 'on' : 'off', `flag targeting ${kind}${name ? '.' + name : ''} is ${want2} (it is ${show(x)})`); }
  };
  for (const s of c.ops) {
    if (s.op === 'open') {
      if (s.tab === 'new') sess.clear();
      const q = s.params.map(([n, v]) => `${encodeURIComponent(n)}=${encodeURIComponent(v)}`).join('&'); const url = `${s.host}${s.path}${q ? `?${q}` : ''}${s.slash && q ? '/' : ''}${s.hash}`; const origin = new URL(url).origin;
      page = clientPage({ bundle, clock, local: store(local, origin), session: store(sess, origin), cookies: new CookieJar(Object.fromEntries(s.cookies)), url });
      page.scope.document.referrer = s.referrer; page.scope.navigator = { userAgent: AGENTS[s.agent][0](s.version), language: s.language, languages: s.languages };
      client = page.init(KEYS[s.key], { fetchOnStart: false, pollOnStart: false, automaticExposureTracking: false, initialFlags: JSON.stringify(FLAGS), ...(s.provider ? { userProvider: { getUser: () => s.provider } } : {}) });
      provider = client.getUserProvider(); visitNow = s; look();
    } else if (!page) continue;
    else if (s.op === 'go') { page.scope.location.href = new URL(s.path, page.scope.location.origin).href; look(); }
    else if (s.op === 'wait') clock.now += s.ms;
    else if (s.op === 'put') { store(s.where === 'local' ? local : sess, page.scope.location.origin).setItem(`EXP_${KEYS[visitNow.key].slice(0, 10)}_DEFAULT_USER_PROVIDER`, s.text); bad++; look(); }
    else look();
  }
  ctx.cls('kept', kept > 0); ctx.cls('object names', odd > 0); ctx.cls('equals signs', eq > 0); ctx.cls('stored junk', bad > 0); ctx.cls('lists', lists > 0); ctx.nontrivial(kept > 0 && (lists > 0 || eq > 0 || bad > 0));
}
const cond = (sel, v) => [[{ op: 'is', selector: ['context', 'user', ...sel], values: [v] }]];
const FLAGS = [['language', undefined, 'fr-CA'], ['browser', undefined, 'Safari'], ['device_category', undefined, 'mobile'], ['referring_url', undefined, 'https://a.b/c'], ['landing_url', undefined, 'https://www.example.com/a'], ['url_param', 'a', '1'], ['url_param', 'a', 'a=b'], ['url_param', 'utm_source', 'summer'], ['cookie', 'session', 'dGVzdA=='], ['cookie', 'c1', 'x']].map(([kind, name, v], i) => ({ key: `f${i}`, test: [kind, name, v], metadata: { evaluationMode: 'local' }, variants: { on: { key: 'on' }, off: { key: 'off' } }, segments: [{ conditions: cond(name === undefined ? [kind] : [kind, name], v), variant: 'on' }, { variant: 'off' }] }));
export default {
  id: 'X12', level: 'exploration',
  rule: 'a case is non-trivial when a stored landing URL or first-seen time was there, and a parameter list, a cookie value with an equals sign or a modified stored record occurred',
  assumptions: ['storage works (failing storage is covered by X06)', 'cookies without a name or with the same name twice are not generated', 'user agents: eleven common browsers with generated versions'],
  async setup() { return { bundle: await scopedBundle('browser') }; },
  parts: [{ name: 'context', what: 'page loads in one or several tabs with generated URL, referrer, cookies, user agent and languages, single-page navigation, time and modified stored records', runs: { quick: 2500, thorough: 100000 }, expect: { kept: 0.6, 'object names': 0.1, 'equals signs': 0.3, 'stored junk': 0.2, lists: 0.3 },
    arb: (fc) => fc.array(opArb(fc), { minLength: 2, maxLength: 9, size: 'max' }).map((ops) => ({ ops })), check }],
};
