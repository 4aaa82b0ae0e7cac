import { plainBundle, scopedBundle } from '../lib/build.mjs';
import { makePage, decodeJson } from '../lib/world.mjs';
import { settle } from '../lib/clock.mjs';
import { same, fail, show, clean } from '../lib/runner.mjs';
const anyStr = (fc) => fc.oneof(fc.string({ maxLength: 12 }), fc.string({ unit: 'grapheme', maxLength: 8 }), fc.string({ unit: 'binary', maxLength: 12 }).map((s) => s.toWellFormed()), fc.constantFrom('日本語', '😀', '>>>???', 'ÿþ', '\u0000'));
const json = (fc) => fc.letrec((tie) => ({ v: fc.oneof({ depthSize: 'small' }, anyStr(fc), fc.integer(), fc.boolean(), fc.constant(null), fc.array(tie('v'), { maxLength: 3 }), fc.dictionary(anyStr(fc).filter((s) => s !== '__proto__'), tie('v'), { maxKeys: 3 })) })).v;
const userArb = (fc) => fc.dictionary(fc.oneof(fc.constantFrom('user_id', 'device_id', 'country', 'user_properties', 'groups'), anyStr(fc)).filter((s) => s !== '__proto__'), json(fc), { maxKeys: 5 });
const keyArb = (fc) => fc.stringMatching(/^[A-Za-z0-9_-]{1,20}$/);
const variantsArb = (fc) => fc.dictionary(anyStr(fc).filter((s) => s !== '__proto__'), fc.record({ key: fc.constantFrom('on', 'off'), value: anyStr(fc), payload: json(fc), metadata: fc.dictionary(fc.constantFrom('a', 'default', 'deployed'), json(fc)) }, { requiredKeys: ['key'] }), { maxKeys: 5 });
const urlSafe = /^[A-Za-z0-9_-]*$/;
export default {
  id: 'E07', level: 'exploration',
  rule: 'a case is non-trivial when the user or response contains text outside of ASCII or at least two entries, or the response is a failure',
  assumptions: ['users are JSON values with well-formed Unicode', 'deployment keys are header-safe'],
  async setup() { return { ...(await plainBundle('core')), browserBundle: await scopedBundle('browser') }; },
  parts: [
    { name: 'variants', what: 'request fidelity and response decoding of the remote evaluation call', runs: { quick: 4000, thorough: 100000 },
      arb: (fc) => fc.record({ key: keyArb(fc), user: userArb(fc), server: fc.constantFrom('https://api.lab.amplitude.com', 'https://x.example:8080', 'http://localhost'),
        opts: fc.option(fc.record({ flagKeys: fc.array(anyStr(fc), { maxLength: 4 }), trackingOption: fc.constantFrom('track', 'no-track', 'read-only'), exposureTrackingOption: fc.constantFrom('track', 'no-track'), deliveryMethod: fc.constantFrom('feature', 'web'), evaluationMode: fc.constantFrom('remote', 'local'), timeoutMillis: fc.nat(10000) }, { requiredKeys: [] }), { nil: undefined }),
        status: fc.oneof({ weight: 3, arbitrary: fc.constant(200) }, { weight: 2, arbitrary: fc.constantFrom(201, 204, 301, 304, 400, 401, 403, 404, 408, 413, 429, 500, 502, 503, 0) }, { weight: 1, arbitrary: fc.integer({ min: 100, max: 599 }) }), variants: variantsArb(fc), net: fc.boolean() }),
      async check(c, ctx, { index }) {
        const reqs = [];
        const client = { request: async (r) => { reqs.push(r); return { status: c.status, body: JSON.stringify(c.variants) }; } };
        const api = new index.SdkEvaluationApi(c.key, c.server, client);
        const before = JSON.stringify([c.user, c.opts]);
        let out, err;
        try { out = await api.getVariants(c.user, c.opts); } catch (e) { err = e; }
        same(JSON.stringify([c.user, c.opts]), before, 'arguments after the call');
        ctx.nontrivial(/[^\x20-\x7e]/.test(before) || c.status !== 200 || Object.keys(c.variants).length > 1);
        ctx.cls('failure', c.status !== 200); ctx.cls('withOptions', Boolean(c.opts));
        same(reqs.length, 1, 'number of requests');
        const r = reqs[0]; const u = new URL(r.requestUrl); const o = c.opts || {};
        same(r.method, 'GET', 'method');
        same(u.origin + u.pathname, c.server + '/sdk/v2/vardata', 'endpoint');
        const q = Object.fromEntries(u.searchParams); 
        same(q, clean({ v: '0', eval_mode: o.evaluationMode, delivery_method: o.deliveryMethod }), 'query');
        const h = r.headers;
        same(Object.keys(h).sort(), ['Authorization', 'X-Amp-Exp-User', ...(o.flagKeys ? ['X-Amp-Exp-Flag-Keys'] : []), ...(o.trackingOption ? ['X-Amp-Exp-Track'] : []), ...(o.exposureTrackingOption ? ['X-Amp-Exp-Exposure-Track'] : [])].sort(), 'headers');
        same(h.Authorization, `Api-Key ${c.key}`, 'authorization');
        if (!urlSafe.test(h['X-Amp-Exp-User'])) fail('user header is not URL safe base64');
        same(decodeJson(h['X-Amp-Exp-User']), JSON.parse(JSON.stringify(c.user)), 'user in the request');
        if (o.flagKeys) same(decodeJson(h['X-Amp-Exp-Flag-Keys']), o.flagKeys, 'flag keys in the request');
        same(h['X-Amp-Exp-Track'], o.trackingOption, 'tracking option'); same(h['X-Amp-Exp-Exposure-Track'], o.exposureTrackingOption, 'exposure tracking option');
        same(r.timeoutMillis, o.timeoutMillis, 'timeout');
        if (c.status === 200) { if (err) fail(`success rejected: ${err}`); same(out, c.variants, 'decoded variants'); }
        else { if (!err) fail(`status ${c.status} resolved with ${show(out)}`); same(err.statusCode, c.status, 'status carried by the error'); }
      } },
    { name: 'flags', what: 'flags request and decoding', runs: { quick: 3000, thorough: 80000 },
      arb: (fc) => fc.record({ key: keyArb(fc), server: fc.constantFrom('https://flag.lab.amplitude.com', 'http://localhost:1'), opts: fc.option(fc.record({ libraryName: keyArb(fc), libraryVersion: keyArb(fc), user: userArb(fc), deliveryMethod: fc.constantFrom('feature', 'web'), timeoutMillis: fc.nat(10000) }, { requiredKeys: [] }), { nil: undefined }), status: fc.oneof({ weight: 3, arbitrary: fc.constant(200) }, fc.integer({ min: 100, max: 599 })), flags: fc.uniqueArray(fc.record({ key: anyStr(fc).filter((s) => s !== '__proto__'), variants: fc.constant({}), segments: fc.constant([]), metadata: fc.dictionary(fc.constantFrom('v', 'w'), json(fc)) }), { selector: (f) => f.key, maxLength: 6 }) }),
      async check(c, ctx, { index }) {
        const reqs = [];
        const api = new index.SdkFlagApi(c.key, c.server, { request: async (r) => { reqs.push(r); return { status: c.status, body: JSON.stringify(c.flags) }; } });
        let out, err; try { out = await api.getFlags(c.opts); } catch (e) { err = e; }
        ctx.nontrivial(c.flags.length > 1 || c.status !== 200);
        const r = reqs[0]; const o = c.opts || {}; const u = new URL(r.requestUrl);
        same(reqs.length, 1, 'requests'); same(r.method, 'GET', 'method'); same(u.origin + u.pathname, c.server + '/sdk/v2/flags', 'endpoint');
        same(Object.fromEntries(u.searchParams), clean({ delivery_method: o.deliveryMethod }), 'query');
        same(r.headers.Authorization, `Api-Key ${c.key}`, 'authorization');
        same(r.headers['X-Amp-Exp-Library'], o.libraryName && o.libraryVersion ? `${o.libraryName}/${o.libraryVersion}` : undefined, 'library header');
        if (o.user) same(decodeJson(r.headers['X-Amp-Exp-User']), JSON.parse(JSON.stringify(o.user)), 'user'); else same(r.headers['X-Amp-Exp-User'], undefined, 'user');
        if (c.status === 200) { if (err) fail(`success rejected: ${err}`); same(Object.keys(out).sort(), c.flags.map((f) => f.key).sort(), 'flag keys'); for (const f of c.flags) same(out[f.key], f, `flag ${f.key}`); }
        else if (!err) fail(`status ${c.status} resolved`);
      } },
    { name: 'base64', what: 'URL-safe text encoding round-trips', sync: true, runs: { quick: 3000, thorough: 100000 },
      arb: (fc) => fc.oneof(anyStr(fc), fc.string({ unit: 'binary', maxLength: 60 }).map((s) => s.toWellFormed())),
      check(c, ctx, env) {
        env.b64 = env.b64 || makePage({ bundle: env.browserBundle }).M.base64;
        const e = env.b64.urlSafeBase64Encode(c);
        ctx.nontrivial(c.length > 1);
        if (!urlSafe.test(e)) fail(`not URL safe: ${e}`);
        same(Buffer.from(e, 'base64url').toString('utf8'), c, 'decoded text');
      } },
    { name: 'transport', what: 'the default transport settles each request exactly once: answer, network error or timeout, whichever is first', runs: { quick: 1200, thorough: 30000 },
      arb: (fc) => fc.array(fc.record({ start: fc.nat(50), timeout: fc.constantFrom(undefined, null, 0, -1, 1, 50, 100, 1000), delay: fc.constantFrom(0, 10, 49, 51, 99, 101, 999, 1001, 5000, Infinity), kind: fc.constantFrom('ok', 'ok', 'error', 'status'), body: anyStr(fc) }), { minLength: 1, maxLength: 4 }),
      async check(c, ctx, { browserBundle }) {
        const specs = []; let page;
        const fetch = (url, init) => { const s = c[Number(new URL(url).searchParams.get('i'))]; specs.push({ url, init }); return new Promise((res, rej) => { if (s.delay === Infinity) return; page.clock.at(page.clock.now + s.delay, () => (s.kind === 'error' ? rej(new TypeError('net')) : res({ status: s.kind === 'status' ? 503 : 200, text: async () => s.body }))); }); };
        page = makePage({ bundle: browserBundle, fetch });
        const outs = c.map(() => ({ n: 0 }));
        const client = page.M.index.Experiment.initialize('k', { automaticFetchOnAmplitudeIdentityChange: false, fetchOnStart: false, pollOnStart: false });
        const http = client.config.httpClient;
        c.forEach((s, i) => page.clock.at(page.clock.now + s.start, () => { http.request(`https://h/?i=${i}`, 'GET', { a: '1' }, null, s.timeout).then((v) => Object.assign(outs[i], { n: outs[i].n + 1, v, at: page.clock.now }), (e) => Object.assign(outs[i], { n: outs[i].n + 1, e, at: page.clock.now })); }));
        const t0 = page.clock.now;
        await page.clock.advance(8000);
        ctx.nontrivial(c.some((s) => s.timeout > 0 && s.delay > s.timeout) || c.some((s) => s.kind !== 'ok'));
        c.forEach((s, i) => {
          const o = outs[i]; const lim = s.timeout > 0 ? s.timeout : Infinity; const when = Math.min(lim, s.delay);
          if (when === Infinity) { same(o.n, 0, `request ${i} that is never answered and has no timeout`); return; }
          same(o.n, 1, `settlements of request ${i}`); same(o.at - t0 - s.start, when, `settlement time of request ${i}`);
          if (lim < s.delay) { if (!o.e || !(o.e instanceof page.M.core.TimeoutError)) fail(`request ${i} timed out with ${show(o.e || o.v)}`); }
          else if (s.kind === 'error') { if (!o.e || o.e.message !== 'net') fail(`network error surfaced as ${show(o.e || o.v)}`); }
          else same(o.v, { status: s.kind === 'status' ? 503 : 200, body: s.body }, `response of request ${i}`);
        });
      } },
  ],
};
