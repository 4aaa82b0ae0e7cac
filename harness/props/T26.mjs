import { bundleScript } from '../lib/build.mjs';
import { Visitor, settle, webFlag, pageObject, mutate, API_KEY } from '../lib/tagworld.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const HOSTS = ['www.example.com', 'shop.example.com'];
const DAY = 24 * 3600 * 1000, LIMIT = 2000;
const COMPARE = { 'greater or equal': (a, b) => a >= b, greater: (a, b) => a > b, is: (a, b) => a === b, 'is not': (a, b) => a !== b, less: (a, b) => a < b, 'less or equal': (a, b) => a <= b };
const TYPES = ['buy', 'view', 'other'];
// ---- the shared store behind the frame, as the pages see it --------------------------------------
class Relay {
  constructor(visitor) { this.visitor = visitor; this.events = []; this.nextId = 1; this.migrated = new Set(); this.identities = new Set(); }
  add(e) { if (!this.events.some((x) => x.uuid === e.uuid)) { this.events.push(JSON.parse(JSON.stringify(e))); this.nextId = Math.max(this.nextId, e.id + 1); } }
  attach(page, how, onRead) {
    const clock = page.clock; const state = { frames: [], log: [], synced: false };
    const serve = (frame) => {
      const w = frame.contentWindow; state.frames.push(frame); const origin = new page.window.URL(frame.src).origin;
      const say = (data, after) => clock.at(clock.now + after, () => { if (page.closed || !frame.isConnected) return; if (data.read) onRead(data.payload); page.window.dispatchEvent(new page.window.MessageEvent('message', { data: JSON.parse(JSON.stringify({ ...data, read: undefined })), origin, source: w })); });
      w.postMessage = (m, target) => {
        if (target !== origin) fail(`message to ${target}`); state.log.push(m.type); this.identities.add(`${m.apiKey} ${m.web_exp_id_v2}`);
        const bad = how.bad === m.type; if (bad && how.badBy === 'silence') return; const d = how.latency; const p = m.payload ? JSON.parse(JSON.stringify(m.payload)) : undefined;
        clock.at(clock.now + d, () => {
          if (bad) { say({ requestId: m.requestId, ok: false, error: 'no' }, 0); return; }
          let payload; let read = false;
          if (m.type === 'READ_EVENTS') { payload = { events: this.events.map((e) => ({ ...e })), nextId: this.nextId }; read = true; }
          else if (m.type === 'WRITE_EVENT') this.add(p.event); else if (m.type === 'CHECK_MIGRATED') payload = { migrated: this.migrated.has(p.sourceOrigin) }; else if (m.type === 'MIGRATE_EVENTS') { p.store.events.forEach((e) => this.add(e)); this.migrated.add(p.sourceOrigin); } else fail(`unknown message ${m.type}`);
          say({ requestId: m.requestId, ok: true, payload, read }, 0);
        });
      };
      if (how.ready !== null) say({ type: 'AMP_RELAY_READY' }, how.ready);
    };
    const seen = new Set(); state.look = () => { for (const f of page.document.querySelectorAll('iframe')) if (!seen.has(f)) { seen.add(f); serve(f); } };
    new page.window.MutationObserver(state.look).observe(page.document.body, { childList: true });
    return state;
  }
}
// ---- cases ----------------------------------------------------------------------------------------
const ruleArb = (fc) => fc.record({ type: fc.constantFrom('buy', 'buy', 'view'), op: fc.constantFrom('greater or equal', 'greater or equal', 'greater', 'is', 'is not', 'less', 'less or equal'), value: fc.integer({ min: 0, max: 3 }), days: fc.constantFrom(5, 2), negated: fc.integer({ min: 0, max: 4 }).map((n) => n === 0) });
const flagArb = (fc) => fc.record({ remote: fc.integer({ min: 0, max: 2 }).map((n) => n === 0), on: fc.constantFrom(null, null, null, 'buy', 'view', 'other'), ids: fc.dictionary(fc.constantFrom('b1', 'b2', 'b3'), fc.array(fc.array(ruleArb(fc), { minLength: 1, maxLength: 2 }), { minLength: 1, maxLength: 2 }), { minKeys: 1, maxKeys: 2 }) });
const own = (flags) => flags.map((f, i) => ({ ...f, ids: Object.fromEntries(Object.entries(f.ids).map(([id, g]) => [`${id}-${i}`, g])) })); // behaviours are not shared among flags
const opArb = (fc) => fc.oneof({ weight: 5, arbitrary: fc.record({ op: fc.constant('events'), list: fc.array(fc.record({ type: fc.constantFrom(...TYPES), direct: fc.boolean() }), { minLength: 1, maxLength: 3 }) }) }, { weight: 4, arbitrary: fc.record({ op: fc.constant('wait'), ms: fc.constantFrom(1, 60, 400, 1500, 5000) }) }, { weight: 1, arbitrary: fc.record({ op: fc.constant('navigate'), to: fc.constantFrom('/a', '/b', '/c') }) });
const relayArb = (fc) => fc.record({ ready: fc.constantFrom(20, 20, 20, 20, 20, 300, 300, 2500, 5000, null), latency: fc.constantFrom(10, 10, 200), bad: fc.constantFrom(null, null, null, null, null, null, null, null, null, 'READ_EVENTS', 'CHECK_MIGRATED', 'MIGRATE_EVENTS', 'WRITE_EVENT'), badBy: fc.constantFrom('answer', 'silence') });
const visitArb = (fc) => fc.record({ host: fc.constantFrom(...HOSTS), gap: fc.constantFrom(0, 60000, 3600000, DAY, 3 * DAY), relay: relayArb(fc), outcomes: fc.array(fc.constantFrom('ok', 'ok', 'status', 'error'), { minLength: 2, maxLength: 2 }), early: fc.array(fc.constantFrom(...TYPES), { maxLength: 3 }), preview: fc.constantFrom(null, null, null, null, 'f0', 'f1'), url: fc.constantFrom(null, null, null, null, null, null, null, 'https://relay.test/', 'EU', 'nowhere'), ops: fc.array(opArb(fc), { minLength: 1, maxLength: 6 }) });
const BASE = ['x', 'y', 'z'];
const configs = (c, n, served) => c.flags.map((f, i) => { const name = f.remote ? BASE[n] : 'x'; return webFlag(`f${i}`, Object.fromEntries([...BASE, 'p'].map((k) => [k, [mutate([[`f${i}-${k}`]])]])), undefined, { remote: f.remote && !served, segments: [{ metadata: { segmentName: 'Behaviour' }, conditions: [[{ op: 'set contains any', selector: ['context', 'user', 'behavioral_targeting'], values: Object.keys(f.ids) }]], variant: name }, { metadata: { segmentName: 'All Other Users' }, variant: 'off' }] }); });
async function check(c, ctx, { script }) {
  const rules = Object.fromEntries(c.flags.map((f, i) => [`f${i}`, Object.fromEntries(Object.entries(f.ids).map(([id, groups]) => [id, groups.map((g) => g.map((r) => ({ condition: { type: 'behavior', event_type: r.type, op: r.op, value: r.value, time_type: 'rolling', time_value: r.days, interval: 'day' }, ...(r.negated ? { negated: true } : {}) })))]))]));
  const all = c.flags.flatMap((f, i) => Object.entries(f.ids).map(([id, groups]) => ({ flag: i, id, groups })));
  const v = new Visitor({ script }); const relay = new Relay(v); const own = {}; let serial = 0; let merged = 0, lost = 0, changedBySync = 0;
  try {
    for (let n = 0; n < c.visits.length; n++) {
      const s = c.visits[n]; await v.clock.advance(s.gap); v.newTab(); const origin = `https://${s.host}`; let asked = 0; const where = (t) => `${t} on visit ${n} of ${s.host}`;
      const pages = Object.fromEntries(c.flags.map((f, i) => [`f${i}`, { p: f.on ? pageObject('p' + i, { re: '.*', type: 'analytics_event', value: [[{ op: 'is', selector: ['context', 'data', 'event'], values: [f.on] }]] }) : pageObject('p' + i, { re: '.*' }) }])); const preview = s.preview && Number(s.preview[1]) < c.flags.length ? s.preview : null;
      let version = 0; let inFlight = 0;
      const page = v.open(`${origin}/a${preview ? `?PREVIEW=true&${preview}=p` : ''}`, { server: (r) => {
        if (/configs/.test(r.url)) return { status: 200, delay: 5, body: { flags: configs(c, 0), pageObjects: pages, behavioralTargetingRules: rules } };
        const k = asked++; const o = s.outcomes[k] || 'ok'; inFlight++; v.clock.at(v.clock.now + 50, () => { inFlight--; }); if (o === 'ok') v.clock.at(v.clock.now + 50, () => { version = Math.min(k + 1, 2); });
        return o === 'ok' ? { status: 200, delay: 50, body: configs(c, Math.min(k + 1, 2), true) } : o === 'status' ? { status: 500, delay: 50, body: 'x' } : { kind: 'error', delay: 50 };
      } });
      // ---- model of what this page knows ----
      const known = new Map((own[origin] || []).map((e) => [e.n, e])); const matched = new Set();
      const evaluate = (which) => { for (const r of all) { if (!which(r)) continue; const hit = r.groups.some((g) => g.every((x) => { const count = [...known.values()].filter((e) => e.type === x.type && e.t >= v.clock.now - x.days * DAY).length; return COMPARE[x.op](count, x.value) !== x.negated; })); const k = `f${r.flag} ${r.id}`; if (hit) matched.add(k); else matched.delete(k); } };
      let buffer = []; const names = (r, type) => r.groups.some((g) => g.some((x) => x.type === type));
      let fired = new Set(), at = '/a';
      const happen = (e) => { c.flags.forEach((f, i) => { if (f.on === e.type) fired.add(i); }); if (!all.some((r) => names(r, e.type))) return; known.set(e.n, e); evaluate((r) => names(r, e.type)); };
      let synced = false;
      const read = (payload) => { if (synced) fail('the shared history is read twice'); synced = true; let fresh = 0; for (const e of payload.events) if (!known.has(e.properties.n)) { fresh++; known.set(e.properties.n, { n: e.properties.n, type: e.event_type, t: e.timestamp }); } if (fresh) merged++; const before = [...matched].sort().join(); evaluate(() => true); if (page.atStart !== [...matched].sort().join()) page.maybe = true; if (before !== [...matched].sort().join()) { changedBySync++; page.changed = true; } };
      const frames = relay.attach(page, s.relay, read); page.run(); const M = page.M; const M0 = M.index.createPlugin();
      const send = (type, direct) => { const e = { n: serial++, type, t: v.clock.now }; const running = Boolean(page.client && page.client.isRunning); if (direct && running) page.client.trackEvent(type, { n: e.n }); else void M0.execute({ event_type: type, event_properties: { n: e.n } }); if (running) happen(e); else buffer.push(e); };
      for (const type of s.early) send(type);
      const config = s.url === 'EU' ? { serverZone: 'EU' } : s.url === 'nowhere' ? { relayUrl: 'relay.nowhere' } : s.url ? { relayUrl: s.url } : {};
      // buffered events happen when the client starts to run, after the rules were looked at once
      page.start({ flags: configs(c, 0), pages, rules, config }); let loaded = false, flushed = false;
      const sync = () => { if (!loaded && page.client) { loaded = true; evaluate(() => true); } if (!flushed && page.client && page.client.isRunning) { flushed = true; page.atStart = [...matched].sort().join(); for (const e of buffer) happen({ ...e, t: v.clock.now }); buffer = []; } };
      const step = async (ms) => { const end = v.clock.now + ms; await settle(2); sync(); while (v.clock.now < end) { await v.clock.advance(flushed ? end - v.clock.now : 1); sync(); } };
      const state = (what) => {
        if (!flushed) return;
        same([...(page.client.getExperimentClient().getUser().behavioral_targeting || [])].sort(), [...matched].map((k) => k.split(' ')[1]).sort(), where(`behaviours of the user after ${what}`));
        const shown = page.mutations().map((m) => m.value).sort(); const want = [];
        c.flags.forEach((f, i) => { if (f.on && !fired.has(i)) return; const key = `f${i}`; const settled = !f.remote || !inFlight; if (!settled) { want.push(...shown.filter((x) => x.startsWith(key))); return; } if (key === preview) want.push(`${key}-p`); else if ([...matched].some((k) => Object.keys(f.ids).includes(k.split(' ')[1]))) want.push(`${key}-${f.remote ? BASE[version] : 'x'}`); });
        same(shown, want.sort(), where(`content after ${what}`));
        if (page.errors.length) fail(`page error: ${page.errors[0].stack || page.errors[0]}`);
      };
      await step(60);
      for (const o of s.ops) { if (o.op === 'events') for (const e of o.list) send(e.type, e.direct); else if (o.op === 'navigate') { page.window.history.pushState({}, '', o.to); if (o.to !== at) { at = o.to; fired = new Set(); } } await step(o.op === 'wait' ? o.ms : 0); state(show(o)); }
      await step(9000); state('a while');
      if (!flushed) fail(where('the client does not run'));
      // the frame stays for later events exactly when its history was merged
      const live = [...page.document.querySelectorAll('iframe')].length; same(live, synced ? 1 : 0, where('frames left'));
      const host = s.url === 'EU' ? 'https://cdn.eu.amplitude.com' : s.url === 'nowhere' ? null : s.url ? 'https://relay.test' : 'https://cdn.amplitude.com';
      if (host) same(frames.frames.map((f) => f.src), [`${host}/script/${API_KEY}.relay.html`], where('address of the frame')); else same(frames.frames.length, 0, where('frames without a valid address'));
      const possible = host && s.relay.ready !== null && s.relay.ready < 2 * LIMIT && !['READ_EVENTS', 'CHECK_MIGRATED'].includes(s.relay.bad);
      if (possible && s.relay.bad !== 'MIGRATE_EVENTS' && !synced) fail(where('the shared history was not merged')); if (!possible && synced) fail(where('merged without a relay'));
      if (synced && s.relay.bad !== 'WRITE_EVENT') for (const e of known.values()) if (!relay.events.some((x) => x.properties.n === e.n)) fail(where(`event ${e.n} is not in the shared history`));
      if (synced && s.relay.bad === 'WRITE_EVENT') lost++;
      const remoteRules = c.flags.some((f, i) => f.remote && `f${i}` !== preview); const anyRemote = c.flags.some((f, i) => f.remote && `f${i}` !== preview);
      { const first = anyRemote ? 1 : 0; const again = asked - first; if (again !== 0 && !(remoteRules && again === 1 && (page.changed || page.maybe)) || (page.changed && remoteRules && again !== 1)) fail(where(`${asked} requests for configurations, behaviours ${page.changed ? 'changed' : page.maybe ? 'changed before the merge' : 'did not change'}`)); }
      page.window.dispatchEvent(new page.window.Event('beforeunload')); await settle(2);
      let stored = []; try { stored = JSON.parse(v.local(origin).m.get('EXP_client-abc_rtbt_events')).events; } catch { /* none */ }
      same(stored.map((e) => e.properties.n).sort((a, b) => a - b), [...known.keys()].sort((a, b) => a - b), where('history on the device')); own[origin] = stored.map((e) => ({ n: e.properties.n, type: e.event_type, t: e.timestamp }));
      page.close(); await v.clock.advance(300);
    }
    if (relay.identities.size > 1) fail(`several identities on one site: ${show([...relay.identities])}`);
    ctx.cls('merged', merged > 0); ctx.cls('changed by the merge', changedBySync > 0); ctx.cls('remote', c.flags.some((f) => f.remote)); ctx.cls('writes lost', lost > 0); ctx.cls('event pages', c.flags.some((f) => f.on));
    ctx.nontrivial(merged > 0 || c.visits.some((s) => s.ops.some((o) => o.op === 'events')));
  } finally { v.close(); await settle(1); }
}
export default {
  id: 'T26', level: 'exploration',
  rule: 'a case is non-trivial when the page sees behavioural events, or merges history recorded on another subdomain',
  assumptions: ['the shared store ignores events it has', 'a rule names the flag that uses it', 'fewer events than the history limit'],
  async setup() { return { script: await bundleScript('tag') }; },
  parts: [{ name: 'visits', what: 'visits of two subdomains with behavioural rules, events at any time, a shared history behind a frame that may be slow, silent or failing', runs: { quick: 500, thorough: 15000 }, expect: { merged: 0.2, 'changed by the merge': 0.1, remote: 0.2, 'event pages': 0.4 },
    arb: (fc) => fc.record({ flags: fc.array(flagArb(fc), { minLength: 1, maxLength: 3 }).map(own), visits: fc.array(visitArb(fc), { minLength: 1, maxLength: 4, size: 'max' }) }), check }],
};
