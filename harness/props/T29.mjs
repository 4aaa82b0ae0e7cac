import { bundleScript } from '../lib/build.mjs';
import { Visitor, settle, webFlag, pageObject, mutate, redirect, inject } from '../lib/tagworld.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const ORIGIN = 'https://www.example.com', MOBILE = 'amp-visual-editor-mobile-mode', EDITOR = 'visual-editor-state', FRAME = 'amp-device-iframe', SRC = 'https://cdn.amplitude.com/ve/overlay.js';
const PATHS = ['/', '/a', '/b', '/a?x=1', '/b#h', '/old', '/c'];
const flags = [webFlag('on', { a: [mutate([['x']])] }, 'a'), webFlag('inj', { a: [inject('i1', { css: '.i1{}', js: 'window.__ran = 1' })] }, 'a'), webFlag('red', { a: [redirect(`${ORIGIN}/new`)] }, 'a')];
const pages = { on: { p: pageObject('p', { re: '/a' }), q: pageObject('q', { re: '/b' }) }, inj: { r: pageObject('r', { re: '.*' }) }, red: { o: pageObject('o', { re: '/old' }) } };
const active = (url) => { const o = {}; const on = [...(/\/a/.test(url) ? ['p'] : []), ...(/\/b/.test(url) ? ['q'] : [])]; o.inj = ['r']; if (on.length) o.on = on; if (/\/old/.test(url)) o.red = ['o']; return o; };
const mobileArb = (fc) => fc.constantFrom('true', 'true', 'true', 'true', 'true', 'true', null, 'false', '1', '', 'TRUE', 'denied');
const setMobile = (v, m) => { if (m === 'denied') v.session(ORIGIN).failGet = (k) => k === MOBILE; else if (m !== null) v.session(ORIGIN).m.set(MOBILE, m); };
const withoutParam = (u) => { const x = new URL(u); x.searchParams.delete('VISUAL_EDITOR'); return x.href; };
const server = (r) => (/configs/.test(r.url) ? { status: 200, delay: 3, body: { flags, pageObjects: pages } } : { status: 200, body: {} });
const opArb = (fc) => fc.oneof({ weight: 4, arbitrary: fc.record({ op: fc.constant('load'), to: fc.constantFrom(...PATHS) }) }, { weight: 8, arbitrary: fc.record({ op: fc.constantFrom('push', 'replace'), to: fc.constantFrom(...PATHS, 'relative', undefined), state: fc.constantFrom(null, { a: 1 }) }) }, { weight: 4, arbitrary: fc.record({ op: fc.constant('back'), to: fc.constantFrom(...PATHS) }) }, { weight: 2, arbitrary: fc.constant({ op: 'foreign' }) }, { weight: 1, arbitrary: fc.constantFrom({ op: 'blank' }, { op: 'time' }, { op: 'script', how: 'load' }, { op: 'script', how: 'error' }, { op: 'open' }) });
/** A window as the device frame shows it */
class FrameWindow {
  constructor(url) { const self = this; this.href = url; this.listeners = []; this.pushed = []; const go = (kind) => function (state, title, u) { if (this !== self.history && this !== undefined) fail(`${kind} of the frame called on something else`); self.pushed.push([kind, state, u]); if (u !== undefined && u !== null) self.href = new URL(u, self.href).href; }; this.history = { pushState: go('push'), replaceState: go('replace') }; this.location = { get href() { return self.href; } }; }
  addEventListener(type, fn) { this.listeners.push([type, fn]); } removeEventListener(type, fn) { this.listeners = this.listeners.filter((x) => x[1] !== fn); }
  pop(url) { this.href = url; for (const [t, fn] of this.listeners) if (t === 'popstate') fn({ type: 'popstate', state: null }); }
}
export default {
  id: 'T29', level: 'exploration',
  rule: 'a case is non-trivial when the page is shown in the device frame, or the mobile mode is set although it does not apply',
  assumptions: ['the device frame shows documents of the same origin unless its location cannot be read'],
  async setup() { return { script: await bundleScript('tag') }; },
  parts: [
    { name: 'shell', what: 'the editor in mobile mode: the page moves into the device frame once it is complete, its navigations of any kind are mirrored in the address and in the active pages', runs: { quick: 700, thorough: 30000 }, expect: { mobile: 0.3, late: 0.15, mirrored: 0.25 },
      arb: (fc) => fc.record({ mobile: mobileArb(fc), how: fc.constantFrom('url', 'url', 'stored'), path: fc.constantFrom(...PATHS), complete: fc.constantFrom(true, true, 'later', 'bodyless'), content: fc.constantFrom('', '<p id="own" class="x">hi</p>', 'text<div id="own"></div><script>1</script>'), ops: fc.array(opArb(fc), { minLength: 1, maxLength: 12, size: 'max' }) }),
      async check(c, ctx, { script }) {
        const v = new Visitor({ script }); let device;
        try {
          setMobile(v, c.mobile); const mobile = c.mobile === 'true'; const stored = c.how === 'stored'; if (stored) v.session(ORIGIN).m.set(EDITOR, JSON.stringify({ injectSrc: SRC, amplitudeWindowUrl: 'https://app.amplitude.com/x' }));
          const target = new URL(ORIGIN + c.path); if (!stored) target.searchParams.set('VISUAL_EDITOR', 'true');
          const page = v.open(target.href, { html: `<!doctype html><html><head></head><body>${c.content}</body></html>`, server }); const w = page.window, d = page.document; const body = d.body, html = d.documentElement; const own = d.getElementById('own');
          Object.defineProperty(w, 'opener', { configurable: true, value: { closed: false, postMessage() {} } });
          let ready = c.complete === true ? 'complete' : 'interactive'; Object.defineProperty(d, 'readyState', { configurable: true, get: () => ready });
          let frameWindow = null;
          if (c.complete === 'bodyless') { body.remove(); ready = 'loading'; }
          page.start({ flags, pages }); await v.clock.advance(100);
          const frames = () => [...d.querySelectorAll('iframe')]; const scripts = () => [...d.querySelectorAll('script[src]')];
          const quiet = (what) => { same(page.mutations(), [], `mutations ${what}`); same(page.impressions(), [], `impressions ${what}`); same(page.navigations, [], `redirects ${what}`); same(page.errors.map(String), [], `errors ${what}`); if (w.__ran) fail(`injected code ran ${what}`); if (page.overlay()) fail(`the page is hidden ${what}`); };
          if (mobile && c.complete !== true) {
            ctx.cls('late'); same(frames().length, 0, 'device frames before the page is complete'); same(scripts().length, 0, 'editor scripts before the page is complete'); if (own && own.parentNode !== body) fail('the page was taken apart before it was complete');
            await v.clock.advance(3000); same(frames().length, 0, 'device frames before the page is complete');
            if (c.complete === 'bodyless') { ready = 'complete'; await v.clock.advance(200); same(frames().length, 0, 'device frames before there is a body'); html.appendChild(body); } else ready = 'complete';
            await v.clock.advance(200);
          } else if (c.complete === 'bodyless') { html.appendChild(body); ready = 'complete'; await v.clock.advance(200); }
          quiet('in the editor');
          if (!mobile) {
            same(frames().length, 0, `device frames with mobile mode ${show(c.mobile)}`); if (own && !own.isConnected) fail(`the page was taken apart with mobile mode ${show(c.mobile)}`); same(scripts().length, stored ? 1 : 0, 'editor scripts'); ctx.nontrivial(c.mobile !== null); return;
          }
          ctx.nontrivial(); ctx.cls('mobile');
          const check = (what) => {
            const f = frames(); same(f.map((x) => x.id), [FRAME], `device frames ${what}`); if (own && own.isConnected) fail(`the page is still shown outside of the frame ${what}`); for (const t of d.body.childNodes) if (t.nodeType === 3 && t.textContent.includes('text')) fail(`text of the page is still shown ${what}`);
            quiet(what);
          };
          check('after the shell was built'); device = frames()[0]; Object.defineProperty(device, 'contentWindow', { configurable: true, get() { return frameWindow; } }); same(withoutParam(frames()[0].src), withoutParam(target.href), 'address of the device frame'); same(page.url, withoutParam(target.href), 'address in the editor');
          let wanted = stored ? 1 : 0, state = stored ? 'opening' : 'closed'; same(scripts().length, wanted, 'editor scripts after the shell was built');
          same(page.activePages(), active(page.url), `active pages at ${page.url}`);
          let top = page.url, mirrored = 0, foreign = true; const length = w.history.length; w.history.replaceState({ app: 1 }, '', top); const topState = show(w.history.state);
          for (const o of c.ops) {
            const what = `after ${show(o)}`; const to = o.to === 'relative' ? '?rel=1' : o.to;
            if (o.op === 'load') { frameWindow = new FrameWindow(ORIGIN + o.to); foreign = false; frames()[0].dispatchEvent(new w.Event('load')); top = frameWindow.href; }
            else if (o.op === 'foreign') { frameWindow = { get location() { throw new Error('SecurityError'); }, get history() { throw new Error('SecurityError'); }, addEventListener() { throw new Error('SecurityError'); } }; foreign = true; frames()[0].dispatchEvent(new w.Event('load')); }
            else if (o.op === 'blank') { if (frameWindow === null) frames()[0].dispatchEvent(new w.Event('load')); }
            else if (o.op === 'push' || o.op === 'replace') { if (foreign) continue; const n = frameWindow.pushed.length; const h = frameWindow.history; h[o.op === 'push' ? 'pushState' : 'replaceState'](o.state, 'title', to); same(frameWindow.pushed.slice(n), [[o.op, o.state, to]], `history calls which reach the frame ${what}`); top = frameWindow.href; }
            else if (o.op === 'back') { if (foreign) continue; frameWindow.pop(ORIGIN + o.to); top = frameWindow.href; }
            else if (o.op === 'open') { w.dispatchEvent(new w.MessageEvent('message', { origin: 'https://app.amplitude.com', data: { type: 'OpenOverlay', context: { injectSrc: SRC, amplitudeWindowUrl: 'https://app.amplitude.com' } } })); if (!stored && state === 'closed') { wanted++; state = 'opening'; } }
            else if (o.op === 'script') { const s = scripts().pop(); if (!s || state !== 'opening') continue; s.dispatchEvent(new w.Event(o.how)); await settle(2); state = o.how === 'load' ? 'open' : 'closed'; }
            else await v.clock.advance(12000);
            await v.clock.advance(5);
            if (page.url !== top) fail(`address ${what}: got ${page.url}, the device frame shows ${top}`);
            if (top !== withoutParam(target.href)) mirrored++;
            same(w.history.length, length, `history entries ${what}`); same(show(w.history.state), topState, `history state ${what}`); same(page.activePages(), active(page.url), `active pages ${what} at ${page.url}`); same(scripts().length, wanted, `editor scripts ${what}`); check(what);
          }
          ctx.cls('mirrored', mirrored > 0);
        } finally { if (device) delete device.contentWindow; v.close(); await settle(1); }
      } },
    { name: 'inside', what: 'pages inside frames: in the device frame nothing is applied and the editor can apply changes, in every other frame the page behaves as without a frame', runs: { quick: 420, thorough: 20000 }, expect: { device: 0.2, ordinary: 0.3 },
      arb: (fc) => fc.record({ mobile: mobileArb(fc), frame: fc.constantFrom(FRAME, FRAME, FRAME, FRAME, 'other', '', null, 'throws'), path: fc.constantFrom(...PATHS), editor: fc.constantFrom(false, false, 'url', 'stored'), preview: fc.boolean(), again: fc.boolean(), go: fc.array(fc.constantFrom('/a', '/b', '/old'), { maxLength: 3 }) }),
      async check(c, ctx, { script }) {
        const device = c.frame === FRAME && c.mobile === 'true'; const editor = device ? c.editor : false;
        const run = async (frame, mobile) => {
          const v = new Visitor({ script });
          try {
            if (mobile !== undefined) setMobile(v, mobile); if (editor === 'stored') v.session(ORIGIN).m.set(EDITOR, JSON.stringify({ injectSrc: SRC, amplitudeWindowUrl: 'https://app.amplitude.com/x' }));
            const u = new URL(ORIGIN + c.path); if (editor === 'url') u.searchParams.set('VISUAL_EDITOR', 'true'); if (c.preview) { u.searchParams.set('PREVIEW', 'true'); u.searchParams.set('on', 'a'); }
            const page = v.open(u.href, { server }); const w = page.window; Object.defineProperty(w, 'opener', { configurable: true, value: { closed: false, postMessage() {} } });
            Object.defineProperty(w, 'frameElement', { configurable: true, get() { if (frame === 'throws') throw new Error('SecurityError'); return frame === null ? null : { id: frame }; } });
            page.start({ flags, pages }); await v.clock.advance(300); const seen = [];
            const look = () => seen.push([page.mutations().length, page.impressions().map((x) => [x.flag, x.variant]), page.navigations.map((n) => n.url), Boolean(w.__ran), page.overlay(), page.activePages(), page.url, [...page.document.querySelectorAll('script[src], iframe')].length, page.requests.map((r) => r.url.split('?')[0])]);
            look(); if (c.again) { await page.client.start(); await v.clock.advance(20); look(); }
            for (const to of c.go) { if (page.navigations.length) break; w.history.pushState({}, '', to); await v.clock.advance(30); look(); }
            same(page.errors.map(String), [], 'errors of the page');
            return { seen, mutator: w.ampDomMutator && typeof w.ampDomMutator, url: u.href, requests: page.requests.length, keys: [...v.local(ORIGIN).m.keys()].length };
          } finally { v.close(); await settle(1); }
        };
        const got = await run(c.frame, c.mobile);
        if (device) {
          ctx.cls('device'); for (const s of got.seen) { same(s.slice(0, 5), [0, [], [], false, false], 'what was applied in the device frame [mutations, impressions, redirects, injected, hidden]'); same(s[7], 0, 'scripts and frames loaded in the device frame'); }
          same(got.seen[0][6], got.url, 'address of the device frame'); if (got.mutator !== 'object') fail('the editor cannot apply changes in the device frame');
        } else { ctx.cls('ordinary', c.frame !== null); const want = await run(null, undefined); same(got.seen, want.seen, `what happens in frame ${show(c.frame)} with mobile mode ${show(c.mobile)}, compared with a page which is not framed`); same(got.mutator, undefined, 'mutator of the editor'); }
        ctx.nontrivial(device || c.frame === FRAME || c.mobile === 'true');
      } },
  ],
};
