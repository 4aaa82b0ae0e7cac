// A virtual clock: timers, Date and performance.now for a scope object.
const tick = () => new Promise((r) => setImmediate(r));
/** Lets every pending promise reaction run (real macrotask turns, no virtual time passes). */
export async function settle(n = 2) { for (let i = 0; i < n; i++) await tick(); }
export class Clock {
  constructor(start = 1_700_000_000_000) { this.now = start; this.t0 = start; this.seq = 1; this.timers = new Map(); this.errors = []; }
  install(scope) {
    const clock = this;
    const add = (fn, ms, args, every) => {
      let d = Number(ms); if (!(d >= 0)) d = 0;
      const id = clock.seq++;
      clock.timers.set(id, { id, at: clock.now + d, fn, args, every: every ? Math.max(d, 1) : 0 });
      return id;
    };
    const def = (k, v) => Object.defineProperty(scope, k, { value: v, writable: true, configurable: true, enumerable: true });
    def('setTimeout', (fn, ms, ...args) => add(fn, ms, args, false));
    def('setInterval', (fn, ms, ...args) => add(fn, ms, args, true));
    def('clearTimeout', (id) => { clock.timers.delete(Number(id)); });
    def('clearInterval', (id) => { clock.timers.delete(Number(id)); });
    def('requestAnimationFrame', (fn) => add(() => fn(clock.now - clock.t0), 16, [], false));
    def('cancelAnimationFrame', (id) => { clock.timers.delete(Number(id)); });
    def('queueMicrotask', (fn) => queueMicrotask(fn));
    class VDate extends Date { constructor(...a) { if (a.length === 0) super(clock.now); else super(...a); } static now() { return clock.now; } }
    const D = function (...a) { return new.target ? Reflect.construct(VDate, a, new.target === D ? VDate : new.target) : new VDate().toString(); };
    D.now = () => clock.now; D.parse = Date.parse; D.UTC = Date.UTC; D.prototype = Date.prototype;
    def('Date', D);
    def('performance', { now: () => clock.now - clock.t0, mark() {}, timing: {}, getEntriesByType: () => [] });
  }
  /** Schedules harness work (server answers and the like) at an absolute time. */
  at(time, fn) { const id = this.seq++; this.timers.set(id, { id, at: time, fn, args: [], every: 0 }); return id; }
  /** Due timers up to now+ms, in order, settling promises around each. */
  async advance(ms) {
    const end = this.now + ms;
    await settle();
    for (;;) {
      let best = null;
      for (const t of this.timers.values()) if (t.at <= end && (!best || t.at < best.at || (t.at === best.at && t.id < best.id))) best = t;
      if (!best) break;
      this.now = Math.max(this.now, best.at);
      if (best.every) best.at = this.now + best.every; else this.timers.delete(best.id);
      try { best.fn(...best.args); } catch (e) { this.errors.push(e); }
      await settle(1);
    }
    this.now = end;
    await settle();
  }
  /** Synchronous variant: no promise settling between timers. */
  advanceSync(ms) {
    const end = this.now + ms;
    for (;;) {
      let best = null;
      for (const t of this.timers.values()) if (t.at <= end && (!best || t.at < best.at || (t.at === best.at && t.id < best.id))) best = t;
      if (!best) break;
      this.now = Math.max(this.now, best.at);
      if (best.every) best.at = this.now + best.every; else this.timers.delete(best.id);
      try { best.fn(...best.args); } catch (e) { this.errors.push(e); }
    }
    this.now = end;
  }
}
