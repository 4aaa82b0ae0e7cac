import { scopedBundle } from '../lib/build.mjs';
import { makePage, MemStorage } from '../lib/world.mjs';
import { settle } from '../lib/clock.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const stored = (fc, valid) => fc.oneof({ weight: 2, arbitrary: fc.constant(undefined) }, { weight: 4, arbitrary: valid.map((v) => ({ v })) }, { weight: 2, arbitrary: fc.constantFrom('', '{', 'abc', 'undefined', '"unterminated', '{"a":').map((text) => ({ text })) });
const ident = (fc, tag) => fc.record({ id: fc.constantFrom(tag + '1', tag + '2', null), anon: fc.constantFrom(tag + 'a', tag + 'b'), traits: fc.constantFrom({}, { plan: tag }, { plan: tag, n: 1 }) });
const opArb = (fc) => fc.oneof({ weight: 3, arbitrary: fc.constant({ op: 'user' }) }, { weight: 4, arbitrary: fc.record({ op: fc.constant('track'), n: fc.integer({ min: 1, max: 2 }) }) }, { weight: 2, arbitrary: fc.constantFrom({ op: 'load' }) }, { weight: 2, arbitrary: fc.record({ op: fc.constant('identify'), who: ident(fc, 'n') }) }, { weight: 2, arbitrary: fc.record({ op: fc.constant('advance'), ms: fc.constantFrom(10, 50, 120) }) }, { weight: 1, arbitrary: fc.constant({ op: 'setup' }) });
export default {
  id: 'S01', level: 'exploration',
  rule: 'a case is non-trivial when the analytics instance becomes ready during the history, or persisted data is present before',
  assumptions: ['persisted segment values are JSON text, as the segment library writes them'],
  async setup() { return { bundle: await scopedBundle('browser') }; },
  parts: [{ name: 'histories', what: 'persisted identity, readiness through stub queue, polling or a given instance, tracking and identity changes', runs: { quick: 3000, thorough: 100000 }, expect: { ready: 0.3, corrupt: 0.2 },
    arb: (fc) => fc.record({ how: fc.constantFrom('instance', 'snippet', 'key', 'loaded'), skipSetup: fc.boolean(), callsReady: fc.boolean(), uid: stored(fc, fc.constantFrom('p-user', 'ü')), anon: stored(fc, fc.constantFrom('p-anon')), traits: stored(fc, fc.constantFrom({ plan: 'p' }, {})), live: ident(fc, 'l'), deny: fc.constantFrom('none', 'none', 'none', 'undefined', 'throws'), ops: fc.array(opArb(fc), { minLength: 3, maxLength: 16, size: 'max' }) }),
    async check(c, ctx, { bundle }) {
      const local = new MemStorage(); const put = (k, x) => { if (x) local.setItem(k, x.v !== undefined ? JSON.stringify(x.v) : x.text); };
      put('ajs_user_id', c.uid); put('ajs_anonymous_id', c.anon); put('ajs_user_traits', c.traits);
      const page = makePage({ bundle, local, deny: c.deny });
      const got = []; let who = c.live; const readyFns = []; let loaded = false;
      const real = { initialized: false, initialize() {}, ready: (f) => { if (loaded) f(); else readyFns.push(f); return real; }, user: () => ({ id: () => who.id, anonymousId: () => who.anon, traits: () => who.traits }), track: (t, p) => { got.push([t, p]); } };
      const gk = c.how === 'key' ? 'mySegment' : 'analytics';
      if (c.how === 'loaded') { page.scope[gk] = real; }
      const options = c.how === 'instance' ? { instance: real } : c.how === 'key' ? { instanceKey: 'mySegment' } : {};
      if (c.skipSetup) options.skipSetup = true;
      const plugin = page.M.segment.segmentIntegrationPlugin(options);
      same(Boolean(plugin.setup), !c.skipSetup, 'setup present');
      let setups = 0, done = 0, isReady = false, n = 0;
      const load = () => {
        if (loaded) return; loaded = true; real.initialized = true;
        if (c.how === 'snippet' || c.how === 'key') { const stub = page.scope[gk]; page.scope[gk] = real; if (c.callsReady && Array.isArray(stub)) for (const call of stub) if (call[0] === 'ready') { call[1](); } }
        readyFns.splice(0).forEach((f) => f());
      };
      const setup = () => { if (!plugin.setup) return; setups++; plugin.setup().then(() => { done++; }, () => {}); };
      const persisted = (x) => (x && x.v !== undefined && c.deny === 'none' ? x.v : undefined);
      const canReady = () => setups > 0 && loaded;
      if (!c.skipSetup) setup();
      for (const o of c.ops) {
        if (o.op === 'load') load(); else if (o.op === 'identify') who = o.who; else if (o.op === 'setup') { if (setups < 2) setup(); }
        else if (o.op === 'advance') await page.clock.advance(o.ms);
        await settle(1);
        // readiness may be noticed by polling (50 ms) or by the ready callback, at once
        const u = (() => { try { return plugin.getUser(); } catch (e) { fail(`getUser threw ${e.stack}`); } })();
        const live = { user_id: who.id, device_id: who.anon, user_properties: who.traits };
        const pers = { user_id: persisted(c.uid), device_id: persisted(c.anon), user_properties: persisted(c.traits) };
        const k = got.length; const ev = { eventType: '$exposure', eventProperties: { flag_key: 'f' + n++ } };
        const r = plugin.track(ev);
        if (r === true) { isReady = true; same(got.slice(k), [[ev.eventType, ev.eventProperties]], 'event forwarded'); if (!canReady()) fail('reported delivered although analytics is not ready'); same(u, live, 'user once ready'); }
        else { same(r, false, 'result of track'); same(got.length, k, 'events forwarded although not reported as delivered'); if (isReady) fail('no longer ready'); same(u, pers, 'user before ready'); }
      }
      load(); await page.clock.advance(120);
      const r = plugin.track({ eventType: 'x', eventProperties: {} });
      same(r, !c.skipSetup, 'delivered once analytics is loaded and set up'); if (!c.skipSetup) same(done >= 1, true, 'setup completed');
      ctx.nontrivial(isReady || Boolean(c.uid || c.anon)); ctx.cls('ready', isReady); ctx.cls('corrupt', [c.uid, c.anon, c.traits].some((x) => x && x.text !== undefined));
    } }],
};
