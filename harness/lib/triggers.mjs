// Histories of page triggers: generator, driver for a tagworld page, and the
// reference model of which page objects are active.
import { pageObject, esc } from './tagworld.mjs';
import { settle } from './clock.mjs';
const ORIGIN = 'https://www.example.com';
export const PATHS = ['/a', '/b', '/a?q=1', '/b#h', '/c/d', '/'];
const SELECTORS = ['.box', '.hot', '.box.hot', '#e1', '.wrap .box', '.wrap', 'div.hot, #e2', '.open .box', '.open div'];
const THRESHOLDS = [undefined, 0, 310, 730];
const RATIOS = [undefined, 0, 0.25, 0.5, 1];
const DURATIONS = [505, 1015, 2025];
export const SETTLE_MS = 120; // longer than the observer's debounce and a frame
const EVENTS = ['buy', 'view'];
const triggerArb = (fc, kinds) => {
  const sel = fc.constantFrom(...SELECTORS); const all = {
    url_change: fc.constant({}),
    manual: fc.record({ name: fc.constantFrom('m1', 'm2') }),
    analytics_event: fc.record({ type: fc.constantFrom(...EVENTS), plan: fc.option(fc.constantFrom('gold', 'free'), { nil: undefined }) }),
    element_appeared: fc.record({ selector: sel }),
    element_visible: fc.record({ selector: sel, visibilityRatio: fc.constantFrom(...RATIOS) }),
    scrolled_to: fc.oneof(fc.record({ mode: fc.constant('percent'), percentage: fc.constantFrom(10, 50, 100) }), fc.record({ mode: fc.constant('element'), selector: sel, offsetPx: fc.constantFrom(undefined, 0, 100) })),
    user_interaction: fc.record({ selector: fc.oneof({ weight: 2, arbitrary: sel }, { weight: 1, arbitrary: fc.constantFrom('.wrap', '.box') }), interactionType: fc.constantFrom('click', 'hover', 'focus'), minThresholdMs: fc.constantFrom(...THRESHOLDS) }),
    exit_intent: fc.record({ minTimeOnPageMs: fc.constantFrom(undefined, 0, 700) }),
    time_on_page: fc.record({ durationMs: fc.constantFrom(...DURATIONS) }),
  };
  return fc.constantFrom(...kinds).chain((k) => all[k].map((v) => ({ type: k, value: v })));
};
export const KINDS = ['url_change', 'manual', 'analytics_event', 'element_appeared', 'element_visible', 'scrolled_to', 'user_interaction', 'exit_intent', 'time_on_page'];
const condArb = (fc) => fc.oneof({ weight: 3, arbitrary: fc.constant(null) }, { weight: 3, arbitrary: fc.record({ op: fc.constantFrom('contains', 'does not contain', 'regex match'), v: fc.constantFrom('/a', '/b', 'q=1', '/c') }).map((c) => [[c]]) }, { weight: 1, arbitrary: fc.array(fc.array(fc.record({ op: fc.constantFrom('contains', 'does not contain'), v: fc.constantFrom('/a', '/b', 'q=1') }), { minLength: 1, maxLength: 2 }), { minLength: 1, maxLength: 2 }) });
/** [{flag, id, cond, trigger}] */
export const pagesArb = (fc, { kinds = KINDS, flags = ['f1', 'f2'], min = 1, max = 6 } = {}) => fc.array(fc.record({ flag: fc.constantFrom(...flags), cond: condArb(fc), trigger: triggerArb(fc, kinds) }), { minLength: min, maxLength: max, size: 'max' }).map((l) => l.map((p, i) => ({ ...p, id: `p${i}` })));
export function toPageObjects(list) {
  const o = {}; for (const p of list) {
    const cond = p.cond && p.cond.map((g) => g.map((c) => ({ op: c.op, selector: ['context', 'page', 'url'], values: [c.op === 'regex match' ? esc(c.v) : c.v] })));
    let value = { ...p.trigger.value }; for (const k of Object.keys(value)) if (value[k] === undefined) delete value[k];
    if (p.trigger.type === 'analytics_event') { value = [[{ op: 'is', selector: ['context', 'data', 'event'], values: [p.trigger.value.type] }, ...(p.trigger.value.plan ? [{ op: 'is', selector: ['context', 'data', 'properties', 'plan'], values: [p.trigger.value.plan] }] : [])]]; }
    (o[p.flag] = o[p.flag] || {})[p.id] = pageObject(p.id, { conditions: cond || undefined, type: p.trigger.type, value });
  } return o;
}
const condHolds = (cond, url) => !cond || cond.some((g) => g.every((c) => (c.op === 'does not contain' ? !url.toLowerCase().includes(c.v) : url.toLowerCase().includes(c.v))));
const el = (fc) => fc.integer({ min: 0, max: 4 });
export const opArb = (fc, { weights = {} } = {}) => {
  const W = (k, d) => ({ weight: weights[k] ?? d });
  return fc.oneof(
    { ...W('nav', 3), arbitrary: fc.record({ op: fc.constant('nav'), path: fc.constantFrom(...PATHS), how: fc.constantFrom('pushState', 'replaceState') }) },
    { ...W('back', 1), arbitrary: fc.constant({ op: 'back' }) },
    { ...W('insert', 4), arbitrary: fc.record({ op: fc.constant('insert'), e: el(fc), wrap: fc.boolean(), hidden: fc.constantFrom('', '', 'display:none', 'visibility:hidden') }) },
    { ...W('remove', 1), arbitrary: fc.record({ op: fc.constant('remove'), e: el(fc) }) },
    { ...W('show', 2), arbitrary: fc.record({ op: fc.constant('show'), e: el(fc), hidden: fc.constantFrom('', '', '', 'display:none') }) },
    { ...W('class', 1), arbitrary: fc.record({ op: fc.constant('class'), e: el(fc), add: fc.constantFrom('box', 'hot') }) },
    { ...W('open', 1), arbitrary: fc.constant({ op: 'open' }) },
    { ...W('view', 4), arbitrary: fc.record({ op: fc.constant('view'), e: el(fc), ratio: fc.constantFrom(0, 0.2, 0.3, 0.5, 0.8, 1), near: fc.boolean() }) },
    { ...W('click', 3), arbitrary: fc.record({ op: fc.constant('click'), e: el(fc) }) },
    { ...W('hover', 3), arbitrary: fc.record({ op: fc.constantFrom('hover', 'focus'), e: el(fc), ms: fc.constantFrom(0, 100, 250, 500, 800), to: fc.option(el(fc), { nil: undefined, freq: 3 }), ms2: fc.constantFrom(100, 250, 500, 800), again: fc.constantFrom(false, false, true) }) },
    { ...W('manual', 3), arbitrary: fc.record({ op: fc.constant('manual'), name: fc.constantFrom('m1', 'm2', 'm3'), on: fc.boolean() }) },
    { ...W('event', 3), arbitrary: fc.record({ op: fc.constant('event'), type: fc.constantFrom(...EVENTS, 'other'), plan: fc.constantFrom(undefined, 'gold', 'free'), plugin: fc.boolean() }) },
    { ...W('scroll', 2), arbitrary: fc.record({ op: fc.constant('scroll'), pct: fc.constantFrom(0, 5, 10, 40, 50, 99, 100) }) },
    { ...W('exit', 2), arbitrary: fc.record({ op: fc.constant('exit'), y: fc.constantFrom(0, 20, 50, 51, 300), out: fc.integer({ min: 0, max: 3 }).map((n) => n > 0), at: fc.constantFrom(undefined, 700, 700, 690) }) },
    { ...W('wait', 2), arbitrary: fc.record({ op: fc.constant('wait'), ms: fc.constantFrom(100, 350, 600, 1100) }) },
    { ...W('hidden', 1), arbitrary: fc.record({ op: fc.constant('hidden'), nav: fc.option(fc.constantFrom(...PATHS), { nil: undefined }), ms: fc.constantFrom(50, 200) }) },
  ).chain((o) => fc.constantFrom(true, true, true, false).map((rest) => (['manual', 'event', 'nav', 'click', 'exit'].includes(o.op) ? { ...o, rest } : o)));
};
/** Drives one page and keeps the reference model in step. */
export class TriggerWorld {
  constructor(visitor, list, { flags = [], config = {}, path = '/a', open, server, rules, initial = [] } = {}) {
    this.list = list; this.page = visitor.open(open || ORIGIN + path, { server, html: '<!doctype html><html><head></head><body><div id="root"></div><div class="wrap" id="w"></div></body></html>' });
    const w = this.page.window; this.w = w; this.d = w.document; this.clock = visitor.clock; this.els = [null, null, null, null, null]; this.cls = [['box'], ['box', 'hot'], ['hot'], [], ['box']];
    this.view = new Map(); this.scrollPct = 0; this.history = [ORIGIN + path]; this.at = 0; this.url = ORIGIN + path; this.navs = 0;
    Object.defineProperty(w, 'innerHeight', { value: 500, configurable: true }); Object.defineProperty(this.d.documentElement, 'scrollHeight', { get: () => 1500, configurable: true }); Object.defineProperty(w, 'scrollY', { get: () => this.scrollPct * 10, configurable: true });
    this.io = new Map();
    for (const o of initial) this.insert(o);
    this.reset(); this.hasTop = this.clock.now;
    this.opts = { flags, pages: toPageObjects(list), config, rules };
  }
  start() { this.page.start(this.opts); this.checkAppeared(); }
  // --- model -----------------------------------------------------------------
  reset() { this.m = { manual: new Set(), events: new Set(), appeared: new Set(), visible: new Set(), element: new Set(), scroll: 0, fired: new Set(), clicks: new Map(), exits: new Set(), since: this.clock.now, timed: new Set(), timers: new Map() }; for (const p of this.list) if (p.trigger.type === 'time_on_page') this.m.timers.set(p.trigger.value.durationMs, this.clock.now); }
  matches(sel) { try { return [...this.d.querySelectorAll(sel)]; } catch { return []; } }
  checkAppeared() { for (const p of this.list) if (p.trigger.type === 'element_appeared') { const s = p.trigger.value.selector; if (this.matches(s).some((e) => e.style.display !== 'none' && e.style.visibility !== 'hidden')) this.m.appeared.add(s); } }
  checkViews() {
    for (const p of this.list) {
      const v = p.trigger.value;
      if (p.trigger.type === 'element_visible' && this.matches(v.selector).some((e) => { const s = this.state(e, false); return s.isIntersecting && s.ratio >= (v.visibilityRatio ?? 0); })) this.m.visible.add(p.id);
      if (p.trigger.type === 'scrolled_to' && v.mode === 'element' && this.matches(v.selector).some((e) => this.state(e, !!v.offsetPx).isIntersecting)) this.m.element.add(p.id);
    }
  }
  tick() { const now = this.clock.now; for (const [k, at] of this.m.clicks) if (at <= now) { this.m.fired.add(k); this.m.clicks.delete(k); } for (const [d, t] of this.m.timers) if (t + d <= now) { this.m.timed.add(d); this.m.timers.delete(d); } }
  satisfied(p) {
    const v = p.trigger.value; switch (p.trigger.type) {
      case 'url_change': return true;
      case 'manual': return this.m.manual.has(v.name);
      case 'analytics_event': return this.m.events.has(p.id);
      case 'element_appeared': return this.m.appeared.has(v.selector);
      case 'element_visible': return this.m.visible.has(p.id);
      case 'scrolled_to': return v.mode === 'percent' ? this.m.scroll >= v.percentage : this.m.element.has(p.id);
      case 'user_interaction': return this.m.fired.has(`${v.interactionType}|${v.selector}|${v.minThresholdMs || 0}`);
      case 'exit_intent': return this.m.exits.has(p.id);
      case 'time_on_page': return this.m.timed.has(v.durationMs);
      default: return false;
    }
  }
  expected() { const o = {}; for (const p of this.list) if (condHolds(p.cond, this.url) && this.satisfied(p)) (o[p.flag] = o[p.flag] || []).push(p.id); for (const k of Object.keys(o)) o[k].sort(); return o; }
  // --- the environment ---------------------------------------------------------
  state(e, margin) { const v = this.view.get(e) || { ratio: 0, near: false }; const shown = e.isConnected && e.style.display !== 'none'; return { isIntersecting: shown && (v.ratio > 0 || (margin && v.near)), ratio: shown ? v.ratio : 0 }; }
  /** What a browser's IntersectionObserver reports after a rendering step. */
  observe() {
    for (const ob of this.page.observers) {
      let m = this.io.get(ob); if (!m) this.io.set(ob, m = new Map());
      const margin = /[1-9]/.test(ob.options.rootMargin || ''); const t = [].concat(ob.options.threshold ?? 0); const entries = [];
      for (const e of ob.targets) { const s = this.state(e, margin); const idx = t.findIndex((x) => x > s.ratio); const key = `${idx < 0 ? t.length : idx}|${s.isIntersecting}`; if (m.get(e) !== key) { m.set(e, key); entries.push({ target: e, isIntersecting: s.isIntersecting, intersectionRatio: s.ratio, time: this.clock.now }); } }
      if (entries.length) ob.cb(entries, ob);
    }
  }
  insert(o) {
    if (this.els[o.e]) this.drop(o.e);
    const e = this.d.createElement('div'); e.id = 'e' + o.e; e.className = this.cls[o.e].join(' '); if (o.hidden) e.setAttribute('style', o.hidden);
    this.d.getElementById(o.wrap ? 'w' : 'root').appendChild(e); this.els[o.e] = e;
  }
  drop(i) { const e = this.els[i]; if (e) { this.view.delete(e); e.remove(); } this.els[i] = null; }
  fire(target, Type, type, init) { target.dispatchEvent(new this.w[Type](type, { bubbles: true, cancelable: true, ...init })); }
  settled() { return this.rest(SETTLE_MS); }
  async rest(ms) { await this.clock.advance(ms); this.tick(); this.checkViews(); this.observe(); await settle(); }
  goto(path, how) {
    const url = ORIGIN + path; const was = this.url;
    if (url !== was) for (let i = 0; i < 5; i++) if (this.els[i] && this.view.has(this.els[i])) this.drop(i);
    if (how === 'pushState') { this.history.length = this.at + 1; this.history.push(url); this.at++; } else this.history[this.at] = url;
    this.w.history[how]({}, '', url); this.landed(url, was);
  }
  landed(url, was) { this.url = url; if (url !== was) { this.navs++; this.reset(); this.checkAppeared(); } }
  async apply(o) {
    const pg = this.page, m = () => this.m; const e = o.e === undefined ? null : this.els[o.e]; let dom = false;
    switch (o.op) {
      case 'nav': this.goto(o.path, o.how); break;
      case 'back': if (this.at > 0) { const was = this.url; const url = this.history[this.at - 1]; if (url !== was) for (let i = 0; i < 5; i++) if (this.els[i] && this.view.has(this.els[i])) this.drop(i); this.at--; this.w.history.back(); await this.clock.advance(1); this.landed(url, was); } break;
      case 'insert': this.insert(o); dom = true; break;
      case 'remove': this.drop(o.e); dom = true; break;
      case 'show': if (e) { o.hidden ? e.setAttribute('style', o.hidden) : e.removeAttribute('style'); dom = true; } break;
      case 'class': if (e) { e.classList.add(o.add); dom = true; } break;
      case 'open': this.d.getElementById('w').classList.add('open'); dom = true; break;
      case 'view': if (e) this.view.set(e, { ratio: o.ratio, near: o.near }); break;
      case 'click': if (e) {
        for (const p of this.list) { const v = p.trigger.value; if (p.trigger.type !== 'user_interaction' || v.interactionType !== 'click' || !e.closest(v.selector)) continue; const k = `click|${v.selector}|${v.minThresholdMs || 0}`; if (!v.minThresholdMs) m().fired.add(k); else if (!m().fired.has(k) && !m().clicks.has(k)) m().clicks.set(k, this.clock.now + v.minThresholdMs); }
        this.fire(e, 'MouseEvent', 'click'); } break;
      case 'hover': case 'focus': if (e) {
        const [T, on, off] = o.op === 'hover' ? ['MouseEvent', 'mouseover', 'mouseout'] : ['FocusEvent', 'focusin', 'focusout'];
        const second = o.to !== undefined && o.to !== o.e ? this.els[o.to] : null;
        for (let turn = 0; turn < (o.again ? 2 : 1); turn++) {
          this.fire(e, T, on); await this.clock.advance(o.ms); this.tick();
          this.fire(e, T, off, { relatedTarget: second }); if (second) { this.fire(second, T, on, { relatedTarget: e }); await this.clock.advance(o.ms2); this.tick(); this.fire(second, T, off, { relatedTarget: null }); }
          if (o.again) { await this.clock.advance(30); this.tick(); }
        }
        for (const p of this.list) {
          const v = p.trigger.value; if (p.trigger.type !== 'user_interaction' || v.interactionType !== o.op) continue; const t = v.minThresholdMs || 0;
          const a = e.closest(v.selector), b = second && second.closest(v.selector); const spans = a && a === b ? [o.ms + o.ms2] : [...(a ? [o.ms] : []), ...(b ? [o.ms2] : [])];
          if (spans.some((s) => s >= t)) m().fired.add(`${o.op}|${v.selector}|${t}`);
        } } break;
      case 'manual': o.on ? m().manual.add(o.name) : m().manual.delete(o.name); pg.client.toggleManualPageObject(o.name, o.on); break;
      case 'event': for (const p of this.list) { const v = p.trigger.value; if (p.trigger.type === 'analytics_event' && v.type === o.type && (v.plan === undefined || v.plan === o.plan)) m().events.add(p.id); }
        { const props = o.plan === undefined ? {} : { plan: o.plan }; if (o.plugin) { await pg.client.plugin().execute({ event_type: o.type, event_properties: props }); } else pg.client.trackEvent(o.type, props); } break;
      case 'scroll': this.scrollPct = o.pct; this.fire(this.w, 'Event', 'scroll'); await this.clock.advance(20); m().scroll = Math.max(m().scroll, o.pct); break;
      case 'exit': { const d = o.at === undefined ? 0 : m().since + o.at - this.clock.now; if (d > 0) { await this.clock.advance(d); this.tick(); } }
        if (o.y <= 50 && o.out) for (const p of this.list) if (p.trigger.type === 'exit_intent' && this.clock.now - m().since >= (p.trigger.value.minTimeOnPageMs ?? 0)) m().exits.add(p.id);
        this.fire(this.d, 'MouseEvent', 'mouseleave', { clientY: o.y, relatedTarget: o.out ? null : this.d.body }); break;
      case 'wait': await this.clock.advance(o.ms); break;
      case 'hidden': pg.hidden = true; this.fire(this.d, 'Event', 'visibilitychange'); if (o.nav) this.goto(o.nav, 'pushState'); await this.clock.advance(o.ms);
        pg.hidden = false; for (const d of m().timers.keys()) m().timers.set(d, this.clock.now); this.fire(this.d, 'Event', 'visibilitychange'); break;
    }
    if (o.rest === false) { this.tick(); return; }
    if (dom) { await this.clock.advance(SETTLE_MS); this.checkAppeared(); }
    await this.rest(SETTLE_MS);
  }
}
