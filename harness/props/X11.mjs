import { scopedBundle } from '../lib/build.mjs';
import { clientPage, MemStorage, CookieJar, Clock, settle } from '../lib/client.mjs';
import { decodeUser } from '../lib/world.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const b64utf8 = (s) => Buffer.from(s, 'utf8').toString('base64');
const ids = (fc) => fc.oneof(fc.constantFrom('d-1', 'user@example.com', '日本', 'ünïcode', 'a b', '😀', '123', 'ÿþý', 'x=y;z', '100%'), fc.string({ minLength: 1, maxLength: 8 }));
const state = (fc) => fc.record({ deviceId: fc.stringMatching(/^[A-Za-z0-9-]{1,12}$/), userId: fc.option(ids(fc), { nil: undefined, freq: 3 }), sessionId: fc.constant(5), optOut: fc.constant(false) }, { requiredKeys: ['deviceId'] });
const bad = (fc) => fc.constantFrom('%', '%E0%A4%A', '!!!not base64!!!', b64utf8('{"deviceId"'), b64utf8('null'), b64utf8('%7B%22a'), '', b64utf8('"text'), '%FF');
const badOld = (fc) => fc.constantFrom('%', '%E0%A4%A', '', 'dev.!!!!', 'dev.a');
const badJson = (fc) => fc.constantFrom('', '{', 'null', 'undefined', '"text"', '5', 'true', '{"deviceId":');
const userOnly = (fc) => fc.constantFrom('u-only', '日本').map((userId) => ({ s: { userId } }));
const slot = (fc, b) => fc.oneof({ weight: 3, arbitrary: fc.constant(undefined) }, { weight: 4, arbitrary: state(fc).map((s) => ({ s })) }, { weight: 2, arbitrary: b.map((text) => ({ text })) });
const keyArb = (fc) => fc.oneof({ weight: 5, arbitrary: fc.constantFrom('0123456789abcdef', 'abcdefghijklmnop', '012345678', '01234567', 'my-client-0123', 'client0123456') }, { weight: 1, arbitrary: fc.constantFrom('client-0123456789', 'abc', '') });
export default {
  id: 'X11', level: 'exploration',
  rule: 'a case is non-trivial when at least two sources hold something, one is unreadable, or an identifier is not ASCII',
  assumptions: ['formats as written by the analytics SDK: new cookie base64 of percent-encoded JSON, old cookie device.base64(UTF-8 user), JSON in local and session storage'],
  async setup() { return { bundle: await scopedBundle('browser') }; },
  parts: [
    { name: 'persisted', what: 'every combination of the four sources, valid, unreadable or absent', runs: { quick: 2500, thorough: 80000 }, expect: { unreadable: 0.3, found: 0.3 },
      arb: (fc) => fc.record({ key: keyArb(fc), fresh: slot(fc, bad(fc)), old: slot(fc, badOld(fc)), local: fc.oneof({ weight: 8, arbitrary: slot(fc, badJson(fc)) }, { weight: 1, arbitrary: userOnly(fc) }), session: slot(fc, badJson(fc)), encode: fc.boolean(), foreign: fc.boolean() }),
      async check(c, ctx, { bundle }) {
        const local = new MemStorage(), session = new MemStorage(), cookies = new CookieJar(); const k10 = c.key.substring(0, 10), k6 = c.key.substring(0, 6);
        if (c.foreign) { cookies.m.set('AMP_zzzzzzzzzz', Buffer.from(encodeURIComponent('{"deviceId":"foreign"}')).toString('base64')); cookies.m.set('other', '%'); cookies.m.set('flag', ''); local.setItem('AMP_zzzzzzzzzz', '{"deviceId":"foreign"}'); }
        if (c.fresh) { const v = c.fresh.s ? b64utf8(encodeURIComponent(JSON.stringify(c.fresh.s))) : c.fresh.text; cookies.m.set(`AMP_${k10}`, c.encode && c.fresh.s ? encodeURIComponent(v) : v); }
        if (c.old) cookies.m.set(`amp_${k6}`, c.old.s ? `${c.old.s.deviceId}.${c.old.s.userId ? b64utf8(c.old.s.userId).replace(/=+$/, (p) => (c.encode ? encodeURIComponent(p) : '')) : ''}..1.2.3` : c.old.text);
        if (c.local) local.setItem(`AMP_${k10}`, c.local.s ? JSON.stringify(c.local.s) : c.local.text);
        if (c.session) session.setItem(`AMP_${k10}`, c.session.s ? JSON.stringify(c.session.s) : c.session.text);
        const order = []; const eligible = c.key && !c.key.startsWith('client-');
        if (eligible && c.key.length >= 10) order.push(c.fresh); if (eligible && c.key.length >= 6) order.push(c.old); if (eligible && c.key.length >= 10) order.push(c.local, c.session);
        const valid = order.find((x) => x && x.s);
        const want = valid ? { userId: valid.s.userId, deviceId: valid.s.deviceId } : { userId: undefined, deviceId: undefined };
        const all = [c.fresh, c.old, c.local, c.session].filter(Boolean);
        ctx.nontrivial(all.length >= 2 || all.some((x) => x.text !== undefined)); ctx.cls('unreadable', all.some((x) => x.text !== undefined)); ctx.cls('found', Boolean(valid));
        const page = clientPage({ bundle, local, session, cookies });
        let client; try { client = page.initAnalytics(c.key, { fetchOnStart: false, pollOnStart: false, retryFetchOnFailure: false }); } catch (e) { fail(`initializing threw ${e.stack}`); }
        const identity = page.M.connector.AnalyticsConnector.getInstance('$default_instance').identityStore.getIdentity();
        // an old cookie with unreadable user still names the device: no user may be made up
        if (!valid || order.indexOf(valid) < order.indexOf(c.old) || !c.old || c.old.s || order.indexOf(c.old) < 0) { if (!(c.old && !c.old.s && !valid)) same({ userId: identity.userId, deviceId: identity.deviceId }, want, 'identity from the persisted analytics session'); }
        if (c.key && valid && (valid === order.find(Boolean) || !(order.indexOf(c.old) >= 0 && order.indexOf(c.old) < order.indexOf(valid) && c.old && !c.old.s))) {
          await settle();
          const p = client.fetch(); await settle(); const r = page.requests.filter((x) => x.kind === 'vardata');
          same(r.length, 1, 'fetch with a persisted identity goes out at once'); const u = decodeUser(r[0].headers);
          same([u.user_id, u.device_id], [want.userId || undefined, want.deviceId], 'identity in the request');
          void p;
        }
      } },
    { name: 'live', what: 'fetches wait for the analytics identity (bounded), automatic refetch on identity change, events reach analytics once it can receive', runs: { quick: 1200, thorough: 40000 },
      arb: (fc) => fc.record({ auto: fc.boolean(), explicit: fc.constantFrom(undefined, undefined, { country: 'CH' }), instance: fc.constantFrom(undefined, 'inst'), identityAt: fc.constantFrom(0, 200, 5000, 9999, 10001, 30000, null), receiverAt: fc.constantFrom(0, 100, 950, 4000, 20000), fetchAt: fc.constantFrom(10, 300, 6000), by: fc.constantFrom('device', 'device', 'user'), before: fc.constantFrom(null, null, null, 'user', 'device'), again: fc.array(fc.constantFrom(1, 400, 9000, 25000), { maxLength: 2 }), changes: fc.array(fc.record({ at: fc.constantFrom(11000, 15000, 21000, 35000), user: fc.constantFrom('u1', 'u2'), props: fc.constantFrom({ a: 1 }, { b: 'x' }) }), { maxLength: 3 }), exposures: fc.array(fc.record({ at: fc.constantFrom(5, 500, 3000, 12000, 26000), key: fc.constantFrom('e1', 'e2', 'e3', 'e4') }), { maxLength: 5 }) }),
      async check(c, ctx, { bundle }) {
        const clock = new Clock(); const t0 = clock.now; const iv = Object.fromEntries(['e1', 'e2', 'e3', 'e4'].map((k) => [k, { key: 'on', value: 'on' }]));
        const page = clientPage({ bundle, clock, vardata: () => ({ body: {} }) });
        const conn = page.M.connector.AnalyticsConnector.getInstance(c.instance || '$default_instance');
        const put = (by) => (by === 'user' ? conn.identityStore.editIdentity().setUserId('u0') : conn.identityStore.editIdentity().setDeviceId('dev')).commit(); if (c.before) put(c.before);
        const init = () => page.initAnalytics('client-xyz', { instanceName: c.instance, fetchOnStart: false, pollOnStart: false, source: 'initialVariants', initialVariants: iv, automaticFetchOnAmplitudeIdentityChange: c.auto }); const client = init();
        const got = []; let changesSeen = 0; let ident = conn.identityStore.getIdentity();
        conn.identityStore.addIdentityListener((i) => { changesSeen++; ident = i; });
        const at = (t, f) => clock.at(t0 + t, f);
        if (c.identityAt !== null) at(c.identityAt + 0.25, () => put(c.by));
        for (const t of c.again) at(t + 0.75, () => { if (init() !== client) fail('initializing again gave another client'); });
        at(c.receiverAt + 0.5, () => conn.eventBridge.setEventReceiver((e) => got.push({ at: clock.now - t0, e })));
        let done; at(c.fetchAt + 0.125, () => client.fetch(c.explicit).then(() => { done = clock.now - t0; }));
        for (const ch of c.changes) at(ch.at, () => conn.identityStore.editIdentity().setUserId(ch.user).setUserProperties(ch.props).commit());
        const exposed = []; for (const e of c.exposures) at(e.at, () => { client.exposure(e.key); exposed.push({ at: e.at, key: e.key, id: JSON.stringify([ident.userId, ident.userId ? null : ident.deviceId]) }); });
        await clock.advance(60000);
        const vd = page.requests.filter((r) => r.kind === 'vardata').map((r) => ({ at: r.at - t0, u: decodeUser(r.headers) }));
        const firstChange = c.before ? 0 : Math.min(...[c.identityAt === null ? Infinity : c.identityAt + 0.25, ...c.changes.map((x) => x.at), 10000]);
        const due = Math.max(c.fetchAt + 0.125, firstChange);
        if (!c.auto) same(vd.map((x) => x.at), [due], 'time of the fetch'); else { if (!vd.some((x) => x.at === due)) fail(`fetch due at ${due}, requests at ${show(vd.map((x) => x.at))}`); same(vd.length, 1 + changesSeen, 'fetches: the explicit one and one per identity change'); }
        const last = vd[vd.length - 1]; if (c.explicit) for (const x of vd.filter((r) => r.at >= c.fetchAt + 0.125)) if (x.at !== due || vd.filter((r) => r.at === due).length === 1) { if (x.at >= due) same(x.u.country, 'CH', `field given by the application, in the fetch at ${x.at}`); } if (c.auto && changesSeen) same([last.u.user_id, last.u.device_id, last.u.user_properties], [ident.userId, ident.deviceId, ident.userProperties], 'user of the last automatic fetch');
        if (c.identityAt !== null && c.identityAt < due) { const u = vd.find((x) => x.at === due).u; if (c.by === 'user') same(typeof u.user_id, 'string', 'user in the fetch'); else same(u.device_id, 'dev', 'device in the fetch'); }
        // every first exposure per identity arrives exactly once after both setup and receiver are there
        exposed.sort((a, b) => a.at - b.at);
        const want = []; let prev = null, seen = new Set();
        for (const e of exposed) { if (e.id !== prev) { seen = new Set(); prev = e.id; } if (!seen.has(e.key)) { seen.add(e.key); want.push(e.key); } }
        same(got.map((x) => x.e.eventProperties.flag_key), want, `exposures received by analytics (exposed ${show(exposed)})`);
        for (const x of got) { same(x.e.eventType, '$exposure', 'event type'); }
        ctx.nontrivial(exposed.length > 0 || c.auto);
      } },
  ],
};
