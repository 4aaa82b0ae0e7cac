import { bundleScript } from '../lib/build.mjs';
import { Visitor, settle, webFlag, pageObject, mutate } from '../lib/tagworld.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const KEY = '0123456789abcdef', HOST = 'shop.example.com';
/** What the analytics SDK shares with the page: identity, listeners and an event receiver. */
function standin() {
  let id = { userProperties: {} }; const ls = new Set(); let receiver; const queue = [];
  const b = {
    identityStore: {
      getIdentity: () => ({ ...id }), setIdentity(x) { const was = JSON.stringify(id); id = { ...x }; if (JSON.stringify(id) !== was) [...ls].forEach((l) => l({ ...id })); },
      addIdentityListener: (l) => { ls.add(l); }, removeIdentityListener: (l) => { ls.delete(l); },
      editIdentity() { const n = { ...id }; const e = { setUserId(x) { n.userId = x; return e; }, setDeviceId(x) { n.deviceId = x; return e; }, setUserProperties(x) { n.userProperties = x; return e; }, setOptOut(x) { n.optOut = x; return e; }, commit() { b.identityStore.setIdentity(n); return e; } }; return e; },
    },
    eventBridge: { get receiver() { return receiver; }, logEvent(e) { if (receiver) receiver(e); else queue.push(e); }, setEventReceiver(r) { receiver = r; queue.splice(0).forEach((e) => r(e)); } },
    applicationContextProvider: { versionName: undefined, getApplicationContext: () => ({}) },
  };
  return b;
}
const b64 = (s) => Buffer.from(s, 'utf8').toString('base64');
const cond = (selector, value) => [[{ op: 'is', selector: ['context', 'user', ...selector], values: [value] }]];
const TARGET = { byuser: [['user_id'], 'u1'], bydevice: [['device_id'], 'd1'], byplan: [['user_properties', 'plan'], 'pro'] };
const meets = (k, id) => (k === 'all' ? true : k === 'byuser' ? id.userId === 'u1' : k === 'bydevice' ? id.deviceId === 'd1' : (id.userProperties || {}).plan === 'pro');
const identArb = (fc) => fc.record({ deviceId: fc.constantFrom('d1', 'd2'), userId: fc.constantFrom(undefined, 'u1', 'u2'), plan: fc.constantFrom(undefined, 'pro', 'free') }).map((x) => ({ ...x, userProperties: x.plan ? { plan: x.plan } : {} }));
const identity = (conn) => conn.identityStore.getIdentity();
const put = (conn, x) => { const e = conn.identityStore.editIdentity().setDeviceId(x.deviceId); if (x.userId) e.setUserId(x.userId); e.setUserProperties(x.userProperties).commit(); };
const visitArb = (fc) => fc.record({
  first: fc.constantFrom('sdk', 'tag'), own: fc.integer({ min: 0, max: 9 }).map((n) => n === 9),
  live: fc.option(fc.record({ at: fc.constantFrom(-1, -1, 100, 500, 960, 1040, 4000), id: identArb(fc) }), { nil: null, freq: 4 }),
  receiver: fc.constantFrom(-1, 0, 400, 999, 1500, 6000, null), 
  later: fc.option(fc.record({ at: fc.constantFrom(5000, 7500), id: identArb(fc) }), { nil: null, freq: 2 }),
});
const caseArb = (fc) => fc.record({
  flags: fc.uniqueArray(fc.constantFrom('all', 'byuser', 'bydevice', 'byplan'), { minLength: 1, maxLength: 4 }), group: fc.constantFrom(null, null, 'holdout-h', 'mutex-m'),
  stored: fc.constantFrom(null, null, 'cookie', 'old cookie', 'local', 'session'), storedId: fc.record({ deviceId: fc.constantFrom('d1', 'd2'), userId: fc.constantFrom(undefined, 'u1', 'u2') }), foreign: fc.boolean(),
  visits: fc.array(visitArb(fc), { minLength: 1, maxLength: 3 }),
});
async function check(c, ctx, { script }) {
  const v = new Visitor({ script }); const clock = v.clock;
  try {
    const origin = `https://${HOST}`; const owed = []; let delivered = 0, live = 0, held = 0, waited = 0, carried = 0;
    if (c.foreign) { v.jar.set(HOST, 'AMP_zzzzzzzzzz=' + b64(encodeURIComponent('{"deviceId":"d1","userId":"u1"}')), true); v.local(origin).setItem('AMP_zzzzzzzzzz', '{"deviceId":"d1","userId":"u1"}'); }
    const text = JSON.stringify(c.storedId);
    if (c.stored === 'cookie') v.jar.set(HOST, `AMP_${KEY.slice(0, 10)}=${b64(encodeURIComponent(text))}`, true);
    if (c.stored === 'old cookie') v.jar.set(HOST, `amp_${KEY.slice(0, 6)}=${c.storedId.deviceId}.${c.storedId.userId ? b64(c.storedId.userId) : ''}..1.2.3`, true);
    if (c.stored === 'local') v.local(origin).setItem(`AMP_${KEY.slice(0, 10)}`, text); if (c.stored === 'session') v.session(origin).setItem(`AMP_${KEY.slice(0, 10)}`, text);
    const flags = c.flags.map((k) => webFlag(k, { treatment: [mutate([[k]])], control: [] }, 'treatment', { segments: [...(TARGET[k] ? [{ conditions: cond(...TARGET[k]), variant: 'treatment' }] : []), { metadata: { segmentName: 'All Other Users' }, variant: k === 'all' ? 'treatment' : 'control' }] }));
    const pages = Object.fromEntries(c.flags.map((k) => [k, { [`p-${k}`]: pageObject(`p-${k}`, {}) }]));
    if (c.group) flags.unshift({ key: c.group, metadata: { deployed: true, evaluationMode: 'local', flagType: c.group.split('-')[0] + '-group', deliveryMethod: 'web', flagVersion: 1 }, segments: [{ variant: 'on' }], variants: { on: { key: 'on', value: 'on' }, off: { key: 'off', metadata: { default: true } } } });
    for (const [n, s] of c.visits.entries()) {
      const t0 = clock.now; const at = (t, f) => clock.at(t0 + t, f); const got = [];
      const page = v.open(`${origin}/p${n}`, { integration: s.own, server: () => ({ body: {} }) }); const w = page.window;
      let conn = null; const mine = c.stored ? null : s.live; // a persisted session speaks for itself
      const ident = (() => { let x = c.stored ? { ...c.storedId, userProperties: {} } : { userProperties: {} }; return { get: () => x, set: (y) => { x = y; } }; })();
      const announce = (x) => { put(conn, x); ident.set({ deviceId: x.deviceId, userId: x.userId || ident.get().userId, userProperties: x.userProperties }); };
      const listen = () => conn.eventBridge.setEventReceiver((e) => got.push({ at: clock.now - t0, e: JSON.parse(JSON.stringify(e)) }));
      if (s.first === 'sdk') { conn = standin(); w.analyticsConnectorInstances = { $default_instance: conn }; if (mine && mine.at < 0) announce(mine.id); if (s.receiver !== null && s.receiver < 0) listen(); }
      page.start({ flags, pages, apiKey: KEY });
      await settle(6);
      const fetched = () => { conn = conn || (w.analyticsConnectorInstances || {}).$default_instance || null; if (!conn && s.own) { conn = standin(); w.analyticsConnectorInstances = { $default_instance: conn }; } if (!conn) fail('the tag did not look for the analytics SDK'); };
      fetched(); if (s.own) ident.set({ userProperties: {} });
      const known = () => ident.get().userId || ident.get().deviceId;
      const atOnce = !s.own && s.first === 'sdk' && mine && mine.at < 0; const liveAt = mine ? (atOnce ? -1 : Math.max(mine.at, 10)) : Infinity;
      if (mine && !atOnce) at(liveAt, () => announce(mine.id));
      const recAt = s.receiver === null ? Infinity : s.first === 'sdk' && s.receiver < 0 ? -1 : Math.max(s.receiver, 5) + 0.5; if (recAt > 0 && recAt < Infinity) at(recAt, listen);
      const readyAt = s.own ? 0 : known() ? 0 : Math.min(liveAt, 1000); const applyAt = c.group ? readyAt : 0;
      const variants = (id) => Object.fromEntries(c.flags.map((k) => [k, meets(k, id) ? 'treatment' : 'control'])); const who = () => (s.own ? { userProperties: {} } : ident.get());
      const shownNow = () => page.mutations().map((m) => m.value).sort(); const last = {};
      const owe = (id, time) => { const x = variants(id); for (const k of c.flags) if (last[k] !== x[k]) { last[k] = x[k]; owed.push({ key: k, variant: x[k], at: time, visit: n, url: `${origin}/p${n}` }); } };
      // while the identity is awaited nothing is applied; at once otherwise
      if (applyAt > 0) { waited++; await clock.advance(Math.max(0, applyAt - 1)); same(shownNow(), [], `what is applied ${applyAt - 1} ms after the start, while the identity of the user is awaited`); same(got, [], 'events before the identity is known'); await clock.advance(2); }
      else await clock.advance(1);
      const applied = who(); owe(applied, clock.now - t0); if (mine) live++;
      const expectShown = (id) => c.flags.filter((k) => meets(k, id)).sort(); same(shownNow(), expectShown(applied), `what is applied at ${applyAt} ms for ${show(applied)}`);
      if (s.later) {
        await clock.advance(s.later.at - (clock.now - t0)); if (!s.own && !c.stored) announce(s.later.id); await settle();
        same(Object.fromEntries(c.flags.map((k) => [k, page.client.getVariants()[k].key])), variants(who()), `variants for ${show(who())}`);
        page.client.applyVariants(); await settle(4); owe(who(), clock.now - t0); same(shownNow(), expectShown(who()), `what is applied for ${show(who())}`);
      }
      await clock.advance(10000 - (clock.now - t0));
      // ---- events of this visit
      if (s.own) { same(got, [], 'events sent to the analytics SDK although the page has an integration of its own'); same(page.tracked.map((t) => [t.event.eventProperties.flag_key, t.event.eventProperties.variant]), owed.splice(0).map((o) => [o.key, o.variant]), 'events of the integration'); }
      else {
        if (page.tracked.length) fail(`events went to an integration the page does not have: ${show(page.tracked)}`);
        const due = recAt < Infinity ? owed.splice(0) : [];
        same(got.map((g) => [g.e.eventProperties.flag_key, g.e.eventProperties.variant, g.e.eventType]), due.map((o) => [o.key, o.variant, '$impression']), `events the analytics SDK received on visit ${n} (receiver at ${recAt}, identity at ${readyAt})`);
        due.forEach((o, i) => { const from = Math.max(o.visit === n ? o.at : 0, readyAt, recAt); if (got[i].at > from + 1001) fail(`the impression of ${o.key} could be sent at ${from} ms but was at ${got[i].at} ms`); same(got[i].e.eventProperties.metadata.url, o.url, 'URL of the impression'); if (o.visit !== n) carried++; });
        delivered += due.length; if (recAt > 0) held += due.length;
      }
      page.close();
    }
    ctx.nontrivial(delivered > 0 && (live > 0 || held > 0 || Boolean(c.stored))); ctx.cls('delivered late', held > 0); ctx.cls('carried over', carried > 0); ctx.cls('waited', waited > 0); ctx.cls('live identity', live > 0);
  } finally { v.close(); await settle(1); }
}
export default {
  id: 'T30', level: 'exploration',
  rule: 'a case is non-trivial when impressions reached the analytics SDK and the identity was live or persisted or the events were held',
  assumptions: ['the analytics SDK shares the connector under its default instance name', 'a persisted analytics session is not contradicted by the live one'],
  async setup() { return { script: await bundleScript('tag') }; },
  parts: [{ name: 'visits', what: 'visits without an integration of their own: analytics SDK before or after the tag, identity persisted, announced early, late or never, receiver early, late or never, holdouts', runs: { quick: 1000, thorough: 30000 }, expect: { 'delivered late': 0.15, waited: 0.1, 'live identity': 0.2 }, arb: caseArb, check }],
};
