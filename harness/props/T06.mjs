import { bundleScript } from '../lib/build.mjs';
import { Visitor, webFlag, pageObject, redirect, settle, esc } from '../lib/tagworld.mjs';
import { fail, show } from '../lib/runner.mjs';
const WWW = 'https://www.example.com', APP = 'https://app.example.com', OTHER = 'https://www.other.org';
const TARGETS = { f1: [`${WWW}/a?v=1`, `${WWW}/a?v=1&u=2`, `${WWW}/a?v=1&u=2`, `${WWW}/b?v=1&u=2`, `${WWW}/b`, `${WWW}/b?x=1`, `${WWW}/b#sec`, `${APP}/t1`, `${APP}/t1?x=1`, `${OTHER}/t1`], f2: [`${WWW}/a?w=2`, `${WWW}/c`, `${WWW}/c?y=é`, `${APP}/t2`, `${OTHER}/t2`] };
const SOURCES = ['/a', '/x', '/b', '/d'];
const QUERIES = ['', '', '', '?utm=1', '?v=1', '?w=2', '?z=a%20b&z=2', '?v=9', '?w=2&v=1', '#sec', '?q=%E2%9C%93#top'];
const host = (u) => new URL(u).host; const site = (u) => host(u).split('.').slice(-2).join('.');
const key = (u) => { const x = new URL(u); return x.host + x.pathname; };
const strip = (u) => u.split('#')[0];
const params = (u) => [...new URL(u).searchParams].map(([k, v]) => `${k}=${v}`).sort().join('&');
const bare = (u) => { const x = new URL(u); x.searchParams.delete('AMP_REDIRECT'); return x.toString(); };
/** The same place: path and parameters in any order, and the fragment if asked for. */
const sameplace = (a, b, hash) => key(a) === key(b) && params(a) === params(b) && (!hash || new URL(a).hash === new URL(b).hash);
const expectedTarget = (current, url) => { const t = new URL(url); const own = new Set(t.searchParams.keys()); for (const [k, v] of new URL(current).searchParams) if (!own.has(k)) t.searchParams.append(k, v); return t.toString(); };
const flagArb = (fc, f) => fc.record({ target: fc.constantFrom(...TARGETS[f]), sources: fc.subarray(SOURCES, { minLength: 1 }), any: fc.constantFrom(false, false, false, true), scoped: fc.boolean(), remote: fc.constantFrom(false, false, true) });
const placeArb = (fc) => fc.record({ path: fc.constantFrom('/a', '/a', ...SOURCES, '/c'), q: fc.constantFrom(...QUERIES) }).map((p) => p.path + p.q);
const caseArb = (fc) => fc.record({
  f1: flagArb(fc, 'f1'), f2: fc.option(flagArb(fc, 'f2'), { nil: null }), name: fc.constantFrom('plain', 'naïve', 'тест ✓'), mode: fc.constantFrom('hard', 'hard', 'hard', 'spa', 'spa'), cookie: fc.constantFrom(true, true, false), inUrl: fc.constantFrom(false, false, true), delay: fc.constantFrom(0, 10, 200), changed: fc.constantFrom(false, false, false, true),
  rules: fc.array(fc.record({ at: fc.constantFrom('www.example.com/b', 'www.example.com/a', 'www.example.com/c', 'app.example.com/t1', 'www.other.org/t2'), by: fc.constantFrom('server', 'server', 'app'), to: fc.constantFrom('strip', 'strip', 'partly', `${WWW}/a`, `${WWW}/x`, `${WWW}/d`, `${WWW}/e`) }), { maxLength: 2 }),
  first: placeArb(fc), own: fc.constantFrom(null, null, null, { by: 'server', to: 'partly' }, { by: 'app', to: 'partly' }, { by: 'app', to: 'strip' }),
  ops: fc.array(fc.oneof({ weight: 4, arbitrary: fc.record({ op: fc.constant('visit'), to: placeArb(fc), touch: fc.constantFrom(true, true, false) }) }, { weight: 2, arbitrary: fc.record({ op: fc.constant('soft'), to: placeArb(fc), touch: fc.constantFrom(true, true, false), broken: fc.constantFrom(false, true) }) }, { weight: 1, arbitrary: fc.record({ op: fc.constant('reload') }) }, { weight: 1, arbitrary: fc.record({ op: fc.constant('touch') }) }).chain((o) => fc.constantFrom(20, 20, 300, 700).map((after) => ({ ...o, after }))).chain((o) => (o.op === 'soft' && o.broken ? fc.constantFrom([o], [o, { op: 'soft', to: '/e', touch: false, broken: false, after: 20 }, { ...o, touch: false, broken: false }]) : fc.constant([o]))), { minLength: 1, maxLength: 5, size: 'max' }).map((l) => l.flat()), after: fc.constantFrom(20, 300, 700),
}).map((c) => (c.own ? { ...c, rules: [{ at: key(c.f1.target), ...c.own }, ...c.rules].filter((x, i, l) => l.findIndex((y) => y.at === x.at) === i) } : c)).filter((c) => {
  if (!c.f2) return true; // a cycle made of several redirects is a mistake of the configuration
  const land = (f) => { const r = c.rules.find((x) => x.at === key(f.target)); return r ? rewrite(r, f.target) : f.target; }; const on = (f, u) => active(f, u);
  if (key(c.f1.target) === key(c.f2.target) && !c.rules.length) return true;
  const ends = (f) => [f.target, land(f)]; // a soft redirect is not rewritten by the server
  return !(ends(c.f2).some((u) => on(c.f1, u)) && ends(c.f1).some((u) => on(c.f2, u)));
});
const re = (f) => (f.any ? '^https://' : `^${esc(WWW)}(${f.sources.map(esc).join('|')})([?#]|$)`);
const active = (f, u) => new RegExp(re(f)).test(u);
const inApp = (r) => r.by === 'app' && (r.to === 'strip' || r.to === 'partly');
/** Where the site leads: without the parameters, without the last one, or elsewhere. */
const rewrite = (r, url) => { if (r.to === 'strip') return url.split(/[?#]/)[0]; if (r.to !== 'partly') return r.to; const u = new URL(url); const names = [...u.searchParams.keys()].filter((k) => k !== 'AMP_REDIRECT'); if (!names.length) return url; u.searchParams.delete('AMP_REDIRECT'); u.searchParams.delete(names.includes('u') ? 'u' : names[names.length - 1]); return u.toString(); };
class Browser {
  constructor(c, script) {
    this.c = c; this.v = new Visitor({ script }); this.clock = this.v.clock; this.redirects = []; this.seen = 0; this.chain = 0; this.reports = []; this.docs = [];
    const names = c.f2 ? ['f1', 'f2'] : ['f1']; this.names = names;
    this.flags = names.map((f) => webFlag(f, { treatment: [redirect(c[f].target, c[f].scoped ? [`p-${f}`] : undefined)], control: [] }, 'treatment', { remote: c[f].remote, metadata: { experimentName: c.name } }));
    this.pages = Object.fromEntries(names.map((f) => [f, { [`p-${f}`]: pageObject(`p-${f}`, { re: re(c[f]) }) }]));
    this.loose = {}; // flags which may rightly be suppressed, or be in an unclear state
    for (const f of names) if (!c[f].target.startsWith(WWW)) this.loose[f] = true;
  }
  get page() { return this.doc.page; }
  get url() { return this.page.url; }
  serve(url) { const r = this.c.rules.find((x) => x.at === key(url)); if (!r || inApp(r)) return url; const to = rewrite(r, url); return key(to) === key(url) || !this.c.rules.some((x) => x.at === key(to) && x.to !== 'strip') ? to : url; }
  load(url, by) {
    const final = this.serve(url); const old = this.doc; if (old) { this.collect(); old.page.close(); }
    // between the redirect and the load the experiment may have been changed
    const control = this.c.changed && by === 'redirect' && !this.flags.some((f) => f.metadata.evaluationMode === 'remote'); const flags = control ? this.flags.map((f) => ({ ...f, segments: [{ metadata: f.segments[0].metadata, variant: 'control' }] })) : this.flags;
    const page = this.v.open(final, { referrer: old ? old.page.lastUrl : undefined, server: (r) => (/\/sdk\/v2\/flags/.test(r.url) ? { status: 200, delay: 5, body: flags.filter((f) => f.metadata.evaluationMode === 'remote').map((f) => ({ ...f, metadata: { ...f.metadata, evaluationMode: 'local' } })) } : 'hang') });
    this.known = final; this.doc = { control, page, at: this.clock.now, from: 0, navs: 0, by, host: new URL(final).host, final }; this.docs.push(this.doc); page.lastUrl = final;
    page.start({ flags, pages: this.pages, config: { redirectConfig: { encodeRedirectInUrl: this.c.inUrl, encodeRedirectInCookie: this.c.cookie } } });
    if (this.c.mode === 'spa') page.client.setRedirectHandler((to) => { this.redirected(to); if (this.breaking) { this.redirects[this.redirects.length - 1].failed = true; throw new Error('navigation failed'); } if (new URL(to).origin === new URL(page.url).origin) { page.window.history.pushState({}, '', to); this.landed(to, to); } else page.window.location.assign(to); });
    const strips = this.c.rules.find((x) => x.at === key(final) && inApp(x)); if (strips) page.window.setTimeout(() => { if (this.doc.page !== page || this.c.mode === 'spa' || page.navigations.length) return; this.observe(); const to = rewrite(strips, page.url); if (to !== page.url) { this.known = to; page.window.history.replaceState({}, '', to); this.stripped = true; } }, 8);
    return final;
  }
  flagOf(url) { const u = bare(url); return this.names.find((f) => { const t = new URL(this.c[f].target), x = new URL(u); return key(u) === key(this.c[f].target) && [...t.searchParams].every(([k, v], i) => { const e = [...x.searchParams][i]; return e && e[0] === k && e[1] === v; }); }); }
  redirected(to, cur = this.page.url) {
    if (this.doc.control) fail(`redirected from ${cur} to ${to}, although the variant is control`);
    const f = this.flagOf(to); if (!f) fail(`redirected from ${cur} to ${to}, which is the target of no redirect`);
    if (!active(this.c[f], cur)) fail(`flag ${f} redirected from ${cur}, where its page is not active`);
    const want = expectedTarget(cur, this.c[f].target); const got = bare(to); if (!sameplace(got, want, true)) fail(`flag ${f} redirected from ${cur} to ${got} instead of ${want}`);
    if (sameplace(cur, want, !!new URL(want).hash)) fail(`flag ${f} redirected from ${cur} to ${to}, which is where the visitor is`);
    this.chain++; if (this.chain > 2 * this.names.length + 2) fail(`${this.chain} redirects in a row: ${this.redirects.slice(-6).map((r) => r.to).join(' ')}`);
    this.redirects.push({ f, to, from: cur, at: this.clock.now, before: this.count(f), doc: this.docs.length });
  }
  count(f) { return this.reports.filter((r) => r.flag === f).length; }
  collect() {
    const l = this.page.impressions(); for (const i of l.slice(this.doc.from)) {
      if (!this.names.includes(i.flag)) fail(`impression of unknown flag ${show(i)}`); if (this.doc.control && i.variant === 'control') continue; if (i.variant !== 'treatment') fail(`impression of variant ${i.variant} of ${i.flag}`);
      this.reports.push({ ...i, doc: this.docs.length });
      // a copy kept on the source's host, which cannot know whether the URL carried it over, may be reported on a return
      const mine = this.redirects.filter((r) => r.f === i.flag); const made = mine.length; const twice = mine.filter((r) => this.c.inUrl && host(r.from) !== host(r.to) && !(this.c.cookie && site(r.from) === site(r.to)));
      const src = new Set(twice.map((r) => host(r.from))); const back = Math.min(twice.length, this.reports.filter((r) => r.flag === i.flag && src.has(host(r.url))).length); if (this.count(i.flag) > made + back) fail(`flag ${i.flag} redirected ${made} times but ${this.count(i.flag)} impressions were reported: ${show(this.reports)}`);
    } this.doc.from = l.length;
  }
  landed(to, final) { const r = this.redirects[this.redirects.length - 1]; r.landing = final; if (!sameplace(bare(final), bare(to), true) || this.c.rules.some((x) => x.at === key(final) && inApp(x))) this.loose[r.f] = true; }
  /** The last redirect of the flag arrived by a page load: who comes to the source later, by a page load, went there. */
  stuck(f) { const r = this.redirects.filter((x) => x.f === f).pop(); return r.failed || this.c.mode === 'hard' && !r.soft && Boolean(r.landing) && r.to.startsWith(WWW + '/') && sameplace(bare(r.landing), bare(r.to), true); }
  /** It arrived, and pages were loaded since. */
  gone(f) { const r = this.redirects.filter((x) => x.f === f).pop(); return !r.failed && this.stuck(f) && this.docs.slice(r.doc).length >= 2 && this.docs.slice(r.doc).every((d) => d.final.startsWith(WWW + '/')); }
  observe() { // a change of the fragment keeps the document
    const u = this.page.url; if (this.c.mode === 'hard' && this.known && u !== this.known && strip(u) === strip(this.known)) { this.redirected(u, this.known); this.landed(u, u); this.redirects[this.redirects.length - 1].soft = true; } this.known = u; this.page.lastUrl = this.page.url;
  }
  async step(ms) {
    await this.clock.advance(ms); this.observe();
    const d = this.doc; const n = d.page.navigations; while (d.navs < n.length) { const nav = n[d.navs++]; if (this.c.mode === 'hard') { this.redirected(nav.url, nav.from); if (d.navs > 1) fail(`the page at ${d.page.url} was redirected ${d.navs} times: ${n.map((x) => x.url).join(' ')}`); if (!nav.replace) fail('a redirect added an entry to the history'); } }
    this.collect();
    if (n.length && this.clock.now >= n[n.length - 1].at + this.c.delay) { const to = n[n.length - 1].url; const final = this.load(to, 'redirect'); this.landed(to, final); await settle(); }
  }
  async wait(ms) { const end = this.clock.now + ms; await settle(); while (this.clock.now < end || this.page.navigations.length) await this.step(10); }
  touch() { this.page.document.body.dispatchEvent(new this.page.window.Event('pointerdown', { bubbles: true })); }
  /** Flags which must redirect a visitor who comes here on their own. */
  due(url) { return this.doc.control ? [] : this.names.filter((f) => active(this.c[f], url) && !this.loose[f] && !sameplace(url, expectedTarget(url, this.c[f].target), !!new URL(this.c[f].target).hash)); }
  /** Impressions due after a rest on the current page. */
  async settledReports(ctx) {
    while (this.page.navigations.length || this.clock.now - Math.max(this.doc.at, ...this.redirects.map((r) => r.at)) < 620) await this.step(10);
    for (const r of this.redirects) {
      if (r.checked || !r.landing) continue; r.checked = true; const docs = this.docs.slice(r.doc - 1); const src = docs[0].host; const land = docs[1] || docs[0];
      const sameHost = docs.every((d) => d.host === src); const viaCookie = this.c.cookie && site(r.to) === site(r.from) && docs.every((d) => site(d.final) === site(r.from)) && new URL(r.to).host !== src;
      const viaUrl = this.c.inUrl && new URL(r.to).host !== src && docs.length === 2 && new URL(land.final).searchParams.has('AMP_REDIRECT');
      if (!(sameHost || viaCookie || viaUrl)) continue;
      // the next redirect takes over the impression which still waits; if the application fails to navigate then, it is left to a later page load
      if (this.redirects.some((x) => x.f === r.f && x.failed && x.at > r.at && x.at - r.at < 900)) continue;
      // reported already during this visit of the page
      if (this.reports.some((x) => x.flag === r.f && x.doc === r.doc && key(x.url) === key(r.landing))) continue;
      if (this.count(r.f) <= r.before) fail(`the redirect of ${r.f} from ${r.from} to ${r.to} was never reported (${docs.map((d) => d.final).join(' ')})`);
      ctx.cls(sameHost ? 'reported, same host' : viaCookie ? 'reported, cookie' : 'reported, URL');
      const first = this.reports.filter((x) => x.flag === r.f)[r.before]; const match = key(r.landing) === key(this.c[r.f].target);
      if (match && docs.length <= 2 && this.redirects.filter((x) => x.f === r.f && !x.done).length === 1 && key(first.url) !== key(r.landing)) fail(`the impression of ${r.f} was reported at ${first.url}, not at ${r.landing} where it landed`);
    }
    for (const r of this.redirects) r.done = true;
  }
}
async function body(c, ctx, { script }) {
  const b = new Browser(c, script);
  try {
    const must = (due, count, what) => { if (due.length && b.redirects.length === count) fail(`${what}: no redirect although ${due.join(', ')} should redirect from here`); };
    let url = b.load(`${WWW}${c.first}`, 'visit'); let due = b.due(url), n = b.redirects.length; await b.wait(30); must(due, n, `first visit of ${url}`); await b.wait(c.after); if (c.after > 600) await b.settledReports(ctx);
    for (const o of c.ops) {
      const onWww = b.url.startsWith(WWW + '/'); b.chain = 0;
      if (o.op === 'touch') { b.touch(); await b.wait(o.after); }
      else if (o.op === 'reload') { n = b.redirects.length; for (const f of b.names) if (active(c[f], b.url) && b.redirects.some((r) => r.f === f)) b.loose[f] = true; b.load(b.url, 'reload'); await b.wait(o.after); }
      else if (o.op === 'visit') {
        if (o.touch) b.touch(); else for (const f of b.names) if (b.redirects.some((r) => r.f === f) && !b.stuck(f)) b.loose[f] = true;
        if (!onWww && o.touch) for (const f of b.names) if (b.redirects.some((r) => r.f === f)) b.loose[f] = true;
        url = b.load(`${WWW}${o.to}`, 'visit'); due = b.due(url); n = b.redirects.length; await b.wait(30); must(due, n, `visit of ${url}`); await b.wait(o.after);
      } else if (o.op === 'soft' && onWww) {
        if (o.touch) b.touch(); else for (const f of b.names) if (b.redirects.some((r) => r.f === f) && !b.redirects.filter((r) => r.f === f).pop().failed && !b.gone(f)) b.loose[f] = true;
        b.breaking = o.broken && c.mode === 'spa'; const was = b.url; url = `${WWW}${o.to}`; n = b.redirects.length; b.known = url; b.page.window.history.pushState({}, '', url); due = url !== was ? b.due(url) : []; await b.wait(30); must(due, n, `soft navigation from ${was} to ${url}`); await b.wait(o.after); b.breaking = false;
      } else await b.wait(o.after);
      if (o.after > 600) await b.settledReports(ctx);
    }
    await b.wait(700); await b.settledReports(ctx);
    ctx.nontrivial(b.redirects.length > 0); ctx.cls('redirected', b.redirects.length > 0); ctx.cls('several', b.redirects.length > 2); ctx.cls('rewritten', b.redirects.some((r) => r.landing && !sameplace(bare(r.landing), bare(r.to), true))); ctx.cls('reported', b.reports.length > 0); ctx.cls('stripped by the app', b.stripped === true); ctx.cls('failed navigation', b.redirects.some((r) => r.failed)); ctx.cls('cross host', b.redirects.some((r) => new URL(r.from).host !== new URL(r.to).host));
  } finally { b.v.close(); await settle(1); }
}
export default {
  id: 'T06', level: 'exploration',
  rule: 'a case is non-trivial when the visitor was redirected at least once',
  assumptions: ['redirects of different flags do not lead to each other in a circle', 'navigations commit within 200 ms', 'a flag whose target was rewritten by the site, lies on another host, or to whose source the visitor came back without a visible interaction, may stay put for the rest of the session', 'an impression which a redirect took over whose navigation the application then failed to make is left to a later page load'],
  async setup() { return { script: await bundleScript('tag') }; },
  parts: [{ name: 'journeys', what: 'visits, soft navigations and reloads over sites with redirects, rewriting servers, several hosts', runs: { quick: 1600, thorough: 20000 }, expect: { redirected: 0.5, several: 0.15, rewritten: 0.05, 'stripped by the app': 0.02, 'cross host': 0.1 }, arb: caseArb, check: body }],
};
