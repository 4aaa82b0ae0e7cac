import { scopedBundle } from '../lib/build.mjs';
import { tagPage, Clock, Jar, MemStorage } from '../lib/taglight.mjs';
import { settle } from '../lib/clock.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const KEY = 'client-dep', STORE = 'EXP_client-dep_rtbt_events', LIMIT = 500;
const TYPES = ['view', 'buy', 'other'];
const propsArb = (fc) => fc.dictionary(fc.constantFrom('a', 'b', 'ü'), fc.oneof(fc.integer(), fc.string({ maxLength: 4 }), fc.constant(null), fc.array(fc.integer(), { maxLength: 2 })), { maxKeys: 2 });
const stay = (fc) => fc.constantFrom(10, 100, 490, 500, 510, 1000, 20000);
const junkArb = (fc) => fc.oneof(fc.constantFrom('', '{', 'null', '[]', '1', '"x"', '{}', '{"events":{},"nextId":1}', '{"events":[],"nextId":"1"}', '{"events":[null],"nextId":1}', '{"events":[1,"x"],"nextId":3}', '{"events":null,"nextId":2}', '{"nextId":2}'), fc.string({ maxLength: 10 }));
const opArb = (fc) => fc.oneof(
  { weight: 8, arbitrary: fc.record({ op: fc.constant('add'), type: fc.nat(2), props: propsArb(fc), n: fc.oneof({ weight: 12, arbitrary: fc.integer({ min: 1, max: 3 }) }, { weight: 1, arbitrary: fc.constantFrom(250, 499, 500, 501) }) }) },
  { weight: 4, arbitrary: fc.record({ op: fc.constant('wait'), ms: stay(fc) }) },
  { weight: 3, arbitrary: fc.constantFrom({ op: 'unload' }, { op: 'crash' }, { op: 'hide' }, { op: 'flush' }, { op: 'cleanup' }) },
  { weight: 3, arbitrary: fc.record({ op: fc.constant('sync'), fail: fc.constantFrom('none', 'none', 'none', 'none', 'none', 'check', 'migrate', 'read', 'unavailable', 'garbage'), steps: fc.constantFrom(0, 0, 3, 3, 3) }) },
  { weight: 5, arbitrary: fc.constant({ op: 'step' }) },
  { weight: 2, arbitrary: fc.record({ op: fc.constant('elsewhere'), n: fc.oneof({ weight: 6, arbitrary: fc.integer({ min: 1, max: 4 }) }, { weight: 1, arbitrary: fc.constantFrom(300, 499, 520) }), ago: fc.constantFrom(0, 1000, 100000, 1e9), echo: fc.boolean() }) },
  { weight: 1, arbitrary: fc.constantFrom({ op: 'quota', on: true }, { op: 'quota', on: false }) },
  { weight: 1, arbitrary: fc.record({ op: fc.constant('query'), type: fc.nat(2), hours: fc.constantFrom(0, 1, 24, 100) }) });
const strip = (e) => ({ uuid: e.uuid, event_type: e.event_type, timestamp: e.timestamp, properties: e.properties, session_id: e.session_id });
const copy = (x) => JSON.parse(JSON.stringify(x));
async function history(c, ctx, { bundle }) {
  const clock = new Clock(1_700_000_000_000); const jar = new Jar(clock), local = new MemStorage(), session = new MemStorage();
  let quota = false; local.failSet = () => quota;
  // the shared history behind the relay
  const relay = { store: [], migrated: false, wrote: [] };
  let page, sm, st, waiting = null; let mem = [], saved = [], due = null, far = 0, syncs = 0, crashes = 0, evicted = 0, lost = false, relayN = 0;
  const allowed = c.filter ? new Set(['view', 'buy']) : undefined;
  const check = (what) => {
    const got = st.getAllEvents().map(strip);
    if (got.length !== mem.length) fail(`${what}: ${got.length} events, expected ${mem.length}: ${show(got.slice(-3))} vs ${show(mem.slice(-3))}`);
    same(got, mem.map(strip), what);
  };
  const onDisk = () => { const t = local.getItem(STORE); return t ? JSON.parse(t).events.map(strip) : []; };
  const open = () => { page = tagPage({ bundle, clock, jar, local, session }); sm = new page.M.session.SessionManager(KEY); st = new page.M.eventStorage.EventStorageManager(KEY, sm, allowed); waiting = null; mem = copy(saved); due = null; check('events after a page load'); };
  const persist = () => { if (due !== null && !quota) saved = copy(mem); due = null; };
  const pass = async (ms) => { const end = clock.now + ms; if (due !== null && due <= end) persist(); await clock.advance(ms); };
  const cut = () => { if (mem.length > LIMIT) { evicted += mem.length - LIMIT; mem = mem.slice(-LIMIT); } };
  open();
  const fake = (mode) => {
    const hold = (name, value) => new Promise((res, rej) => { waiting = { name, go: () => { waiting = null; if (mode === name) rej(new Error('relay rpc timeout')); else res(value()); } }; });
    return {
      get relayAvailable() { return mode !== 'unavailable'; },
      checkMigrated: () => hold('check', () => relay.migrated),
      migrateEvents: (o, store) => hold('migrate', () => { relay.migrated = true; for (const e of store.events) if (!relay.store.some((x) => x.uuid === e.uuid)) relay.store.push(copy(e)); }),
      readEvents: () => hold('read', () => (mode === 'garbage' ? { nope: 1 } : { events: copy(relay.store), nextId: 1 })),
      writeEvent: (e) => { relay.wrote.push(e.uuid); if (!relay.store.some((x) => x.uuid === e.uuid)) relay.store.push(copy(e)); },
      flush() {},
    };
  };
  let sync = null;
  for (const o of c.ops) {
    clock.now += 10;
    if (due !== null && clock.now >= due) await pass(0);
    if (o.op === 'add') {
      for (let i = 0; i < o.n; i++) {
        const t = TYPES[o.type]; if (i) clock.now += 10; if (due !== null && clock.now >= due) { persist(); clock.advanceSync(0); }
        const p = copy(o.props); st.addEvent(t, p);
        if (allowed && !allowed.has(t)) continue;
        const e = st.getAllEvents()[st.getAllEvents().length - 1];
        if (!e || typeof e.uuid !== 'string' || !e.uuid || mem.some((x) => x.uuid === e.uuid)) fail(`new event without an identity of its own: ${show(e)}`);
        mem.push({ uuid: e.uuid, event_type: t, timestamp: clock.now, properties: p, session_id: sm.getCurrentSessionId() }); cut(); due = clock.now + 500;
      }
      check('events after adding');
    } else if (o.op === 'wait') { await pass(o.ms); same(onDisk().length, saved.length, 'events stored on the device'); }
    else if (o.op === 'unload') { page.win.dispatch('beforeunload'); persist(); sync = null; open(); }
    else if (o.op === 'hide') { page.document.visibilityState = 'hidden'; page.doc.dispatch('visibilitychange'); page.document.visibilityState = 'visible'; persist(); same(onDisk(), saved.map(strip), 'events stored when the page was hidden'); }
    else if (o.op === 'flush') { st.flush(); persist(); same(onDisk(), saved.map(strip), 'events stored after a flush'); }
    else if (o.op === 'cleanup') { st.cleanup(); persist(); same(onDisk(), saved.map(strip), 'events stored after the cleanup'); sync = null; open(); }
    else if (o.op === 'crash') { for (const id of [...clock.timers.keys()]) clock.timers.delete(id); sync = null; crashes++; open(); }
    else if (o.op === 'quota') quota = o.on;
    else if (o.op === 'elsewhere') {
      // other subdomains add events to the shared history, and may hold edited copies of ours
      for (let i = 0; i < o.n; i++) relay.store.push({ uuid: 'far-' + far, id: far, event_type: 'view', timestamp: clock.now - o.ago + 5 + (far++) * 10, session_id: 's', properties: { far } });
      if (o.echo && mem.length && !relay.store.some((x) => x.uuid === mem[0].uuid)) relay.store.push({ ...copy(mem[0]), id: 1, properties: { echoed: true } });
    } else if (o.op === 'sync') { if (sync) continue; const r = fake(o.fail); const rec = { fail: o.fail, done: undefined, r }; sync = rec; st.syncFromRelay(r).then((v) => { rec.done = v; }); await settle(1); if (o.fail === 'unavailable') { same(rec.done, false, 'sync without a relay'); sync = null; } }
    if (o.op === 'step' || o.op === 'sync') for (let k = o.op === 'step' ? 1 : o.steps; k > 0; k--) {
      if (!sync || !waiting) break;
      const name = waiting.name; const before = new Set(relay.store.map((e) => e.uuid)); relay.wrote = []; const snapshot = copy(relay.store);
      waiting.go(); await settle(2);
      if (name === 'read' && sync.fail !== 'read' && sync.fail !== 'garbage') {
        same(sync.done, true, 'outcome of the sync');
        // union by identity, the shared copy wins, in time order, newest kept
        const want = new Map(mem.map((e) => [e.uuid, e])); const missing = mem.filter((e) => !before.has(e.uuid)).map((e) => e.uuid);
        for (const e of snapshot) want.set(e.uuid, e);
        mem = [...want.values()].sort((a, b) => a.timestamp - b.timestamp); cut(); due = clock.now + 500; syncs++;
        same([...relay.wrote].sort(), missing.sort(), 'events pushed to the shared history because it lacked them');
        check('events after the sync'); sync = null;
      } else if (name === sync.fail || (name === 'read' && sync.fail === 'garbage')) { same(sync.done, false, 'outcome of a failed sync'); check('events after a failed sync'); sync = null; }
    }
    if (o.op === 'query') {
      const t = TYPES[o.type];
      const got = st.getEventsInTimeWindow(t, 'rolling', o.hours, 'hour').map((e) => e.uuid); const want = mem.filter((e) => e.event_type === t && e.timestamp >= clock.now - o.hours * 3600000).map((e) => e.uuid);
      same(got, want, `${t} events of the last ${o.hours} hours`);
      const sid = sm.getCurrentSessionId(); same(st.getEventsInTimeWindow(t, 'current_session', 0).map((e) => e.uuid), mem.filter((e) => e.event_type === t && e.session_id === sid).map((e) => e.uuid), `${t} events of the session`);
    }
  }
  await pass(500); same(onDisk(), (saved = due === null ? saved : saved).map(strip), 'events stored in the end');
  ctx.nontrivial(mem.length > 0 && (syncs > 0 || crashes > 0)); ctx.cls('synced', syncs > 0); ctx.cls('evicted', evicted > 0); ctx.cls('crashed', crashes > 0);
}
export default {
  id: 'T10', level: 'exploration',
  rule: 'a case is non-trivial when events survive a crash or are merged with the shared history (histories), when stored content is unusual (stored), or when a decision settles events (consent)',
  assumptions: ['distinct events carry distinct times, so that time order is total', 'one relay exchange at a time', 'every event has passed the allow-list when one is given'],
  async setup() { return { bundle: await scopedBundle('tag') }; },
  parts: [
    { name: 'histories', what: 'events, debounce, unload, crash, storage failure and relay exchanges stepped one message at a time', runs: { quick: 1500, thorough: 60000 }, expect: { synced: 0.2, evicted: 0.05, crashed: 0.2 },
      arb: (fc) => fc.record({ filter: fc.boolean(), ops: fc.array(opArb(fc), { minLength: 4, maxLength: 24, size: 'max' }) }), check: history },
    { name: 'stored', what: 'corrupt, partial and old-format stored histories', sync: true, runs: { quick: 2000, thorough: 60000 }, expect: { legacy: 0.2 },
      arb: (fc) => fc.oneof(fc.record({ junk: junkArb(fc) }), fc.record({ events: fc.array(fc.record({ uuid: fc.constantFrom('', 'u1', 'u2', undefined, 5), id: fc.nat(5), event_type: fc.constantFrom(...TYPES), timestamp: fc.nat(1e6), session_id: fc.constant('s'), properties: propsArb(fc) }), { maxLength: 6 }) })),
      check(c, ctx, { bundle }) {
        const clock = new Clock(), jar = new Jar(clock), local = new MemStorage();
        local.setItem(STORE, c.events ? JSON.stringify({ events: c.events, nextId: 9 }) : c.junk);
        const open = () => { const page = tagPage({ bundle, clock, jar, local }); const sm = new page.M.session.SessionManager(KEY); return new page.M.eventStorage.EventStorageManager(KEY, sm); };
        let st; try { st = open(); } catch (e) { fail(`stored history ${show(local.getItem(STORE))} made the start fail: ${e.message}`); }
        const first = copy(st.getAllEvents());
        if (c.events) {
          same(first.map((e) => [e.event_type, e.timestamp, e.properties]), copy(c.events).map((e) => [e.event_type, e.timestamp, e.properties]), 'stored events');
          first.forEach((e, i) => { const u = c.events[i].uuid; if (typeof u === 'string' && u) same(e.uuid, u, 'identity of a stored event'); else if (typeof e.uuid !== 'string' || !e.uuid || first.filter((x) => x.uuid === e.uuid).length > 1) fail(`an old event got no identity of its own: ${show(e.uuid)}`); });
          same(copy(open().getAllEvents()), first, 'events on the next load (identities included)');
        } else same(first.filter((e) => e && typeof e === 'object' && e.event_type), [], 'usable events of a corrupt history');
        try { st.addEvent('view', {}); for (const t of TYPES) { st.getEventCount(t); st.getEventCountInTimeWindow(t, 'rolling', 1, 'hour'); } st.mergeFromRelay({ events: [], nextId: 1 }); st.flush(); } catch (e) { fail(`stored history ${show(c)} makes later events fail: ${e.message}`); }
        const after = open().getAllEvents(); if (!after.some((e) => e.event_type === 'view')) fail(`an event added over the stored history ${show(c)} was not kept: ${show(after)}`);
        const legacy = !!c.events && c.events.some((e) => typeof e.uuid !== 'string' || !e.uuid); ctx.nontrivial(legacy || !c.events); ctx.cls('legacy', legacy);
      } },
    { name: 'consent', what: 'events while consent is undecided, then granted or denied, over what the device already holds', runs: { quick: 1200, thorough: 40000 }, expect: { merged: 0.2 },
      arb: (fc) => fc.record({ device: fc.integer({ min: 0, max: 4 }), many: fc.integer({ min: 0, max: 9 }).map((n) => n === 9), before: fc.array(fc.nat(2), { maxLength: 5 }), wait: stay(fc), to: fc.constantFrom('granted', 'granted', 'denied'), after: fc.array(fc.nat(2), { maxLength: 3 }) }),
      async check(c, ctx, { bundle }) {
        const clock = new Clock(), jar = new Jar(clock), local = new MemStorage();
        const n = c.many ? 498 : c.device; const old = Array.from({ length: n }, (_, i) => ({ uuid: 'd' + i, id: i, event_type: 'view', timestamp: clock.now - 100000 + i * 10, session_id: 's', properties: {} }));
        if (n) local.setItem(STORE, JSON.stringify({ events: old, nextId: n + 1 }));
        const initial = local.getItem(STORE);
        const page = tagPage({ bundle, clock, jar, local }); page.requireConsent();
        const sm = new page.M.session.SessionManager(KEY); const st = new page.M.eventStorage.EventStorageManager(KEY, sm);
        same(st.getAllEvents(), [], 'events readable before consent');
        const add = (l) => l.map((t) => { clock.now += 10; st.addEvent(TYPES[t], { t }); return strip(copy(st.getAllEvents().slice(-1)[0])); });
        const a = add(c.before); await clock.advance(c.wait); page.win.dispatch('beforeunload');
        same(local.getItem(STORE), initial, 'device before consent'); same(st.getAllEvents().map(strip), a, 'events in memory before consent');
        page.consent(c.to);
        if (c.to === 'granted') {
          const want = [...old.map(strip), ...a].slice(-LIMIT);
          same(st.getAllEvents().map(strip), want, 'events after the grant');
          same(JSON.parse(local.getItem(STORE) || '{"events":[]}').events.map(strip), want, 'device after the grant');
          const b = add(c.after); await clock.advance(600);
          same(JSON.parse(local.getItem(STORE) || '{"events":[]}').events.map(strip), [...want, ...b].slice(-LIMIT), 'device after later events');
          ctx.cls('merged', n > 0 && a.length > 0);
        } else {
          same(st.getAllEvents(), [], 'events after the denial'); add(c.after); await clock.advance(1000); page.win.dispatch('beforeunload');
          same(local.getItem(STORE), initial, 'device after the denial');
        }
        ctx.nontrivial(a.length > 0);
      } },
  ],
};
