import { bundleScript } from '../lib/build.mjs';
import { Visitor, settle, webFlag, pageObject, mutate, SLICE } from '../lib/tagworld.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const HOSTS = ['www.example.com', 'www.example.com', 'app.example.com', 'example.com', 'a.b.example.com', 'shop.site.co.uk', 'www.shop.site.co.uk', 'localhost'];
const LOCAL = `EXP_${SLICE}`, PROVIDER = `EXP_${SLICE}_DEFAULT_USER_PROVIDER`, COOKIE = `EXP_${SLICE}_identity`, ERASED = `EXP_${SLICE}_erased`;
const scopeOf = (h) => (h === 'localhost' ? null : h.endsWith('example.com') ? 'example.com' : 'site.co.uk');
const junk = (fc) => fc.constantFrom('null', '5', '"x"', '[]', '[1]', '{', 'true', '', 'undefined');
const localText = (fc) => fc.oneof({ weight: 4, arbitrary: fc.record({ web_exp_id: fc.constantFrom('w1', 'w2'), device_id: fc.constantFrom('d1', 'd2'), web_exp_id_v2: fc.constantFrom('v1', 'v2'), plan: fc.constantFrom('p', 'é日') }, { requiredKeys: [] }).map((o) => JSON.stringify(o)) }, { weight: 1, arbitrary: junk(fc) });
const cookieText = (fc) => fc.oneof({ weight: 4, arbitrary: fc.record({ web_exp_id_v2: fc.constantFrom('c1', 'c2', ''), first_seen: fc.constantFrom('1600000000', '1650000000.5') }, { requiredKeys: [] }).map((o) => JSON.stringify(o)) }, { weight: 1, arbitrary: junk(fc) });
const providerText = (fc) => fc.oneof({ weight: 3, arbitrary: fc.record({ first_seen: fc.constantFrom('1500000000', '1550000000') }, { requiredKeys: [] }).map((o) => JSON.stringify(o)) }, { weight: 1, arbitrary: junk(fc) });
const host = (fc) => fc.nat(5);
const stepArb = (fc) => fc.oneof(
  { weight: 9, arbitrary: fc.record({ op: fc.constant('load'), host: host(fc), consent: fc.constantFrom('none', 'none', 'none', 'granted', 'late'), stop: fc.constantFrom(undefined, undefined, undefined, undefined, undefined, undefined, 0, 1, 2, 3, 4, 6), device: fc.constantFrom(undefined, undefined, 'amp-device'), utm: fc.boolean() }) },
  { weight: 2, arbitrary: fc.record({ op: fc.constant('lose'), host: host(fc), what: fc.constantFrom('local', 'identity', 'cookie', 'cookie', 'session', 'provider') }) },
  { weight: 3, arbitrary: fc.record({ op: fc.constant('put'), host: host(fc), what: fc.constant('local'), text: localText(fc) }) },
  { weight: 1, arbitrary: fc.record({ op: fc.constant('put'), host: host(fc), what: fc.constant('cookie'), text: cookieText(fc) }) },
  { weight: 1, arbitrary: fc.record({ op: fc.constant('put'), host: host(fc), what: fc.constant('provider'), text: providerText(fc) }) },
  { weight: 1, arbitrary: fc.record({ op: fc.constant('age'), days: fc.constantFrom(1, 30, 364, 366) }) },
  { weight: 1, arbitrary: fc.record({ op: fc.constant('block'), on: fc.boolean() }) },
  { weight: 1, arbitrary: fc.record({ op: fc.constant('full'), host: host(fc), on: fc.boolean() }) });
const object = (text) => { if (!text) return {}; try { const o = JSON.parse(text); return o && typeof o === 'object' && !Array.isArray(o) ? o : {}; } catch { return {}; } };
async function body(c, ctx, { script }) {
  const v = new Visitor({ script }); const { jar, clock } = v; let moved = 0, partial = 0, shared = 0, crashed = 0; const minted = new Set(); const full = new Set();
  const origin = (i) => `https://${HOSTS[i]}`; const cookie = (h) => { const raw = jar.blocked ? undefined : jar.get(h, COOKIE); if (raw === undefined) return undefined; try { return decodeURIComponent(raw); } catch { return raw; } };
  // analytics-core stores cookies base64 encoded
  const unpack = (raw) => { if (raw === undefined) return undefined; try { return JSON.parse(decodeURIComponent(Buffer.from(raw, 'base64').toString('utf8'))); } catch { return undefined; } };
  const pack = (x) => Buffer.from(encodeURIComponent(JSON.stringify(x))).toString('base64');
  const readCookie = (h) => { const t = unpack(cookie(h)); return typeof t === 'string' ? object(t) : {}; };
  try {
    for (const s0 of c.steps) { const s = s0.host === undefined ? s0 : { ...s0, host: c.hosts[s0.host % c.hosts.length] };
      if (s.op === 'lose') {
        const o = origin(s.host), h = HOSTS[s.host];
        if (s.what === 'local') v.local(o).clear(); else if (s.what === 'identity') v.local(o).removeItem(LOCAL); else if (s.what === 'provider') v.local(o).removeItem(PROVIDER); else if (s.what === 'session') v.newTab(); else jar.drop((k) => k.name === COOKIE && jar.visible(k, h));
        continue;
      }
      if (s.op === 'put') {
        const o = origin(s.host), h = HOSTS[s.host], d = scopeOf(h);
        if (s.what === 'local') v.local(o).m.set(LOCAL, s.text); else if (s.what === 'provider') v.local(o).m.set(PROVIDER, s.text); else { jar.drop((k) => k.name === COOKIE && jar.visible(k, h)); jar.set(h, `${COOKIE}=${s.text === '{' ? '%7B%' : pack(s.text)}; path=/; max-age=${86400 * 365}${d ? `; domain=.${d}` : ''}`); }
        continue;
      }
      if (s.op === 'age') { clock.now += s.days * 86400000; continue; }
      if (s.op === 'block') { jar.blocked = s.on; continue; }
      const o = origin(s.host), h = HOSTS[s.host];
      if (s.op === 'full') { const key = LOCAL; v.local(o).failSet = s.on ? (k) => k === key || k === PROVIDER : null; if (s.on) full.add(o); else full.delete(o); continue; }
      // what the visitor has
      const local = object(v.local(o).getItem(LOCAL)), ck = readCookie(h), prov = object(v.local(o).getItem(PROVIDER));
      const has = (x) => typeof x === 'string' && x !== '';
      const want = { web_exp_id: local.web_exp_id || local.device_id, web_exp_id_v2: has(ck.web_exp_id_v2) ? ck.web_exp_id_v2 : local.web_exp_id_v2 ?? (local.web_exp_id || local.device_id), first_seen: has(ck.first_seen) ? ck.first_seen : prov.first_seen };
      const page = v.open(`${o}/p${s.utm ? '?utm_source=x' : ''}`, { server: (r) => ({ status: 200, body: /\/flags/.test(r.url) ? [] : {} }) });
      if (s.device) page.integrationUser = { user_id: 'someone', device_id: s.device };
      const sees = (k) => [[{ op: 'is', selector: ['context', 'user', k], values: [want[k] ?? '(none)'] }]];
      const flags = [], pages = {};
      for (const k of Object.keys(want)) { flags.push(webFlag(k, { on: [mutate([[k]])] }, 'on', { segments: [{ conditions: sees(k), variant: 'on' }, { variant: 'off' }] })); pages[k] = { p: pageObject('p', { re: '.*' }) }; }
      const config = s.consent === 'none' ? {} : { consentOptions: { consentRequired: true, consentStatus: s.consent === 'granted' ? 'granted' : 'pending' } };
      page.start({ flags, pages, config });
      if (s.consent === 'late') { await clock.advance(300); page.window.webExperiment.setConsentStatus('granted'); }
      if (s.stop !== undefined) { await settle(s.stop); page.close(); await settle(1); clock.timers.clear(); crashed++; continue; }
      await clock.advance(50); await settle(2);

      if (!page.client || !page.client.isRunning) fail(`the tag did not start at ${o}: ${show(page.warnings.slice(-2))} ${show(page.errors.map(String).slice(-1))}`);
      const got = page.client.getExperimentClient().getUser();
      for (const k of Object.keys(want)) {
        if (want[k] !== undefined) same(got[k], want[k], `${k} of the visitor at ${h} (local ${show(local)}, cookie ${show(ck)}, provider ${show(prov)})`);
        else if (!has(got[k])) fail(`no ${k} was created: ${show(got[k])}`);
      }
      if (want.web_exp_id === undefined) { if (minted.has(got.web_exp_id)) fail(`identity ${got.web_exp_id} created twice`); minted.add(got.web_exp_id); if (want.web_exp_id_v2 === undefined) same(got.web_exp_id_v2, got.web_exp_id, 'new shared identity'); }
      if (want.first_seen === undefined && !(Math.abs(Number(got.first_seen) - clock.now / 1000) < 1)) fail(`new first_seen ${got.first_seen} at ${clock.now / 1000}`);
      const effects = page.mutations().map((m) => m.selector.slice(1)).sort(); same(effects, Object.keys(want).filter((k) => want[k] !== undefined).sort(), 'identities seen by the local evaluation');
      // every copy is renewed
      const kept = object(v.local(o).getItem(LOCAL)); if (!full.has(o)) { same([kept.web_exp_id, kept.web_exp_id_v2, kept.device_id, kept.plan], [got.web_exp_id, got.web_exp_id_v2, undefined, local.plan], 'identity kept on the origin'); same(object(v.local(o).getItem(PROVIDER)).first_seen, got.first_seen, 'first_seen kept on the origin'); }
      if (!jar.blocked) { const now = readCookie(h); same([now.web_exp_id_v2, now.first_seen], [got.web_exp_id_v2, got.first_seen], 'identity kept in the cookie'); const all = jar.list.filter((k) => k.name === COOKIE && jar.visible(k, h)); same(all.map((k) => [k.domain, k.hostOnly]), [[scopeOf(h) || h, !scopeOf(h)]], 'scope of the identity cookie'); if (ck.web_exp_id_v2 === undefined && !(all[0].expires >= clock.now + 364 * 86400000)) fail(`a new shared identity is kept until ${all[0].expires}, now ${clock.now}`); }
      if (!jar.blocked) same(jar.list.filter((k) => /TLD_TEST/.test(k.name)).length, 0, 'probe cookies left');
      if (want.web_exp_id !== undefined && local.device_id) moved++; const copies = [has(ck.web_exp_id_v2), local.web_exp_id_v2 !== undefined, local.web_exp_id !== undefined]; if (copies.some(Boolean) && !copies.every(Boolean)) partial++; if (has(ck.web_exp_id_v2) && local.web_exp_id === undefined) shared++;
      page.close(); await settle(1); clock.timers.clear();
    }
    ctx.cls('migrated', moved > 0); ctx.cls('partial', partial > 0); ctx.cls('shared', shared > 0); ctx.cls('interrupted', crashed > 0); ctx.nontrivial(moved + partial + shared > 0);
  } finally { v.close(); await settle(1); }
}
export default {
  id: 'T15', level: 'exploration',
  rule: 'a case is non-trivial when a load finds some but not all copies of an identity, migrates an older format, or takes over the identity of another host',
  assumptions: ['stored identities are non-empty strings; the entries may otherwise hold any text', 'cookies follow browser scoping and expiry'],
  async setup() { return { script: await bundleScript('tag') }; },
  parts: [{ name: 'histories', what: 'loads on several hosts, interrupted at any point, with copies lost, corrupted or expired, storage full and cookies blocked', runs: { quick: 700, thorough: 20000 }, expect: { migrated: 0.15, partial: 0.3, shared: 0.2, interrupted: 0.4 },
    arb: (fc) => fc.record({ hosts: fc.oneof({ weight: 3, arbitrary: fc.constantFrom([0], [0, 2], [0, 2], [0, 3, 4], [5, 6]) }, { weight: 1, arbitrary: fc.array(fc.nat(HOSTS.length - 1), { minLength: 1, maxLength: 3 }) }), steps: fc.array(stepArb(fc), { minLength: 3, maxLength: 12, size: 'max' }) }), check: body }],
};
