import { bundleScript } from '../lib/build.mjs';
import { Visitor, settle, webFlag, pageObject, mutate, redirect, inject } from '../lib/tagworld.mjs';
import { same, fail, show } from '../lib/runner.mjs';
const ORIGIN = 'https://www.example.com', KEY = 'visual-editor-state', INDICATOR = 'amp-exp-loading', BANNER = 'amp-exp-opener-severed';
// [text, whether it belongs to Amplitude]
const ORIGINS = [['https://app.amplitude.com', 1], ['https://app.amplitude.com', 1], ['https://app.eu.amplitude.com', 1], ['https://a.b.amplitude.com', 1], ['https://amplitude.com.evil.org', 0], ['https://evilamplitude.com', 0], ['https://app.amplitude.com.evil.org', 0], ['https://app-amplitude.com', 0], ['https://evil.org', 0], [ORIGIN, 0], ['', 0], ['null', 0], ['app.amplitude.com', 0], ['https://app.amplitude.co', 0], ['https://evil.org/?.amplitude.com', 0], ['https://app.amplitude.com@evil.org', 0]];
const SOURCES = [['https://cdn.amplitude.com/ve/overlay.js', 1], ['https://cdn.amplitude.com/ve/overlay.js', 1], ['https://static.app.amplitude.com/x.js?v=2', 1], ['https://CDN.Amplitude.com/y.js', 1], ['https://cdn.amplitude.com:8443/z.js#h', 1],
  ['http://cdn.amplitude.com/x.js', 0], ['https://evil.org/cdn.amplitude.com', 0], ['https://cdn.amplitude.com.evil.org/x.js', 0], ['https://evilamplitude.com/x.js', 0], ['https://cdn.amplitude.com@evil.org/x.js', 0], ['https://evil.org#.amplitude.com', 0], ['https://evil.org/?x=.amplitude.com', 0], ['javascript:alert(1)//x.amplitude.com', 0], ['data:text/javascript,//.amplitude.com', 0], ['blob:https://cdn.amplitude.com/x', 0], ['//cdn.amplitude.com/x.js', 0], ['/local.js', 0], ['', 0], ['ftp://cdn.amplitude.com/x', 0], ['https://evil.org\\.amplitude.com/x.js', 0], [null, 0], [5, 0], [undefined, 0]];
const srcArb = (fc) => fc.oneof({ weight: 3, arbitrary: fc.constantFrom(...SOURCES.filter((s) => s[1])) }, { weight: 2, arbitrary: fc.constantFrom(...SOURCES.filter((s) => !s[1])) });
const dataArb = (fc) => fc.oneof({ weight: 7, arbitrary: srcArb(fc).map((src) => ({ kind: 'open', src })) }, { weight: 1, arbitrary: fc.constantFrom(null, 5, 'OpenOverlay', [], {}, { type: 'Other', context: { injectSrc: SOURCES[0][0] } }, { type: 'OpenOverlay' }, { type: 'OpenOverlay', context: null }, { type: ['OpenOverlay'], context: { injectSrc: SOURCES[0][0] } }).map((data) => ({ kind: 'odd', data })) });
const opArb = (fc) => fc.oneof(
  { weight: 8, arbitrary: fc.record({ op: fc.constant('message'), origin: fc.oneof({ weight: 3, arbitrary: fc.constantFrom(...ORIGINS.filter((s) => s[1])) }, { weight: 1, arbitrary: fc.constantFrom(...ORIGINS.filter((s) => !s[1])) }), data: dataArb(fc) }) },
  { weight: 5, arbitrary: fc.record({ op: fc.constant('script'), how: fc.constantFrom('load', 'error', 'error') }) },
  { weight: 3, arbitrary: fc.record({ op: fc.constant('time'), ms: fc.constantFrom(1, 500, 4000, 9999, 10000) }) },
  { weight: 2, arbitrary: fc.constant({ op: 'body' }) }, { weight: 1, arbitrary: fc.record({ op: fc.constant('navigate'), to: fc.constantFrom('/b', '/old', '/a?x=2') }) }, { weight: 1, arbitrary: fc.constantFrom({ op: 'hide' }, { op: 'element' }, { op: 'close', i: 0 }, { op: 'close', i: 1 }) }, { weight: 2, arbitrary: fc.record({ op: fc.constant('pages'), set: fc.constantFrom('A', 'B', 'C', 'D', 'none') }) });
const LATE = { id: 'e', name: 'page e', trigger_type: 'element_appeared', trigger_value: { selector: '.late' } };
const SETS = { A: null, B: { on: { r: ['/b'] }, inj: { s: ['.*'] } }, C: { on: { p: ['/old'], e: 'late' } }, D: { extra: { x: ['/a'] }, red: { e: 'late' } }, none: {} };
const built = (set) => Object.fromEntries(Object.entries(SETS[set]).map(([f, o]) => [f, Object.fromEntries(Object.entries(o).map(([id, x]) => [id, x === 'late' ? LATE : pageObject(id, { re: x[0] })]))]));
const MODEL = { ...SETS, A: { on: { p: ['.*'] }, inj: { p: ['.*'] }, red: { q: ['/old'] } } };
const storedArb = (fc) => fc.oneof({ weight: 4, arbitrary: srcArb(fc).map((s) => ({ text: JSON.stringify({ injectSrc: s[0], amplitudeWindowUrl: 'https://app.amplitude.com/x' }), src: s })) }, { weight: 1, arbitrary: fc.constantFrom('{}', '5', '[]', '{"injectSrc":{}}', '"https://cdn.amplitude.com/x.js"').map((text) => ({ text, src: [null, 0] })) });
const flags = [webFlag('on', { a: [mutate([['x']])] }, 'a'), webFlag('inj', { a: [inject('i1', { css: '.i1{}', js: 'void 0' })] }, 'a'), webFlag('red', { a: [redirect(`${ORIGIN}/new`)] }, 'a')];
const pages = { on: { p: pageObject('p', { re: '.*' }) }, inj: { p: pageObject('p', { re: '.*' }) }, red: { q: pageObject('q', { re: '/old' }) } };
export default {
  id: 'T22', level: 'exploration',
  rule: 'a case is non-trivial when the editor was loaded, or a request to load a foreign script was refused',
  assumptions: ['Amplitude is every host under amplitude.com', 'anything stored as the editor session means that the editor is open on this page'],
  async setup() { return { script: await bundleScript('tag') }; },
  parts: [{ name: 'handshake', what: 'pages with and without the editor, messages of any origin and content, script outcomes, time and late bodies', runs: { quick: 900, thorough: 40000 }, expect: { loaded: 0.3, again: 0.03, refused: 0.2, stored: 0.1, severed: 0.05 },
    arb: (fc) => fc.record({ mode: fc.constantFrom('url', 'url', 'url', 'url', 'stored', 'stored', 'both', 'preview', 'preview', 'all', 'keptPreview', 'none'), stored: storedArb(fc), opener: fc.constantFrom('open', 'open', 'open', 'open', 'open', 'open', 'open', 'null', 'closed', 'throws'), nonce: fc.boolean(), debug: fc.boolean(), bodyless: fc.constantFrom(false, false, true), path: fc.constantFrom('/a', '/a?x=1', '/old', '/a?x=%20y#top'), at: fc.constantFrom('first', 'last'), previewStored: fc.boolean(), ops: fc.array(opArb(fc), { minLength: 4, maxLength: 14, size: 'max' }) }),
    async check(c, ctx, { script }) {
      const v = new Visitor({ script });
      try {
        const veUrl = c.mode === 'url' || c.mode === 'both' || c.mode === 'all', veStored = c.mode === 'stored' || c.mode === 'both'; const preview = c.mode === 'preview' || c.mode === 'all';
        const stored = veStored || (preview && c.previewStored) ? c.stored : null; if (stored) v.session(ORIGIN).m.set(KEY, stored.text);
        if (c.mode === 'keptPreview') v.session(ORIGIN).m.set('amp-preview-mode', '{"previewFlags":{"on":"a"}}');
        const editor = veUrl || Boolean(stored); const setup = editor ? c.opener === 'open' : preview;
        const [base, hash] = c.path.split('#'); const own = [veUrl ? 'VISUAL_EDITOR=true' : '', preview ? 'PREVIEW=true&on=a' : ''].filter(Boolean).join('&'); const [p, q] = base.split('?');
        const plain = preview ? p : base; const query = [preview ? '' : q, own].filter(Boolean); if (c.at === 'first') query.reverse();
        const url = ORIGIN + p + (query.length ? '?' + query.join('&') : '') + (hash ? '#' + hash : '');
        const page = v.open(url, { html: `<!doctype html><html><head>${c.nonce ? '<meta nonce="n0nce">' : ''}</head><body></body></html>`, server: (r) => (/configs/.test(r.url) ? { status: 200, delay: 3, body: { flags, pageObjects: pages } } : { status: 200, body: {} }) });
        const w = page.window, d = page.document; const opener = { closed: c.opener === 'closed', postMessage() {} };
        Object.defineProperty(w, 'opener', { configurable: true, get() { if (c.opener === 'throws') throw new Error('SecurityError'); return c.opener === 'null' ? null : opener; } });
        if (c.debug) w.__AMP_DEBUG = true;
        let body = true; const html = d.documentElement, bodyElement = d.body; if (c.bodyless && (setup || editor)) { bodyElement.remove(); body = false; }
        page.start({ flags, pages }); await v.clock.advance(100);
        let set = 'A', late = false, closed = false, messenger = editor && !setup ? 'error' : setup ? 'waiting' : 'not_started', replaced = 0;
        let state = 'closed', listening = setup, waiting = null, since = null, loads = 0, again = 0, refused = 0, toErr = 0; let current = null; const wanted = [];
        const show_ = () => { if (since === null) { since = v.clock.now; } };
        const load = (src) => { state = 'opening'; messenger = 'loading'; waiting = src; show_(); if (body) insert(); };
        const insert = () => { if (waiting === null) return; wanted.push(new URL(waiting).href); current = wanted.length - 1; waiting = null; loads++; if (loads > 1) again++; };
        if (setup && stored && stored.src[1]) { since = v.clock.now - 100; load(stored.src[0]); listening = false; ctx.cls('stored'); }
        const scripts = () => [...d.querySelectorAll('script[src]')];
        let settledScripts = new Set();
        const check = (what) => {
          const got = scripts(); same(got.map((s) => s.src), wanted, `scripts loaded after ${what}`);
          for (const s of got) { const n = s.nonce || s.getAttribute('nonce'); same(n || null, c.nonce ? 'n0nce' : null, `nonce of the script after ${what}`); }
          if (since !== null && v.clock.now - since >= 10000) since = null;
          if (body) same(Boolean(d.getElementById(INDICATOR)), since !== null, `loading indicator after ${what}`);
          if (body) same(d.querySelectorAll(`#${BANNER}`).length, editor && !setup && !closed ? 1 : 0, `notices that the editor cannot be reached after ${what}`);
          const ve = page.client.getDebugState().visualEditor; same([ve.isActive, ve.source ?? null, ve.messengerState], [editor, editor ? (stored ? 'session_storage' : 'url_param') : null, messenger], `state of the editor shown after ${what}`);
          if (editor && setup) { const want = {}; for (const [f, o] of Object.entries(MODEL[set])) { const on = Object.entries(o).filter(([, x]) => (x === 'late' ? late && body : new RegExp(x[0]).test(page.url))).map(([id]) => id).sort(); if (on.length) want[f] = on; } same(page.activePages(), Object.fromEntries(Object.entries(want).sort()), `active pages (${set}) at ${page.url} after ${what}`); }
          if (editor) { same(page.mutations(), [], `mutations in the editor after ${what}`); same(page.impressions(), [], 'impressions in the editor'); same(page.navigations, [], 'redirects in the editor'); if (page.overlay()) fail(`the page is hidden after ${what}`); if (d.adoptedStyleSheets.some((s) => /i1/.test(s.text))) fail('an injection is in effect in the editor'); }
          same(page.errors.map(String), [], `errors of the page after ${what}`);
          if (w.location.search.match(/VISUAL_EDITOR|PREVIEW/)) fail(`the parameter is still in the address ${w.location.href}`);
        };
        if (veUrl) { const u = new URL(url); for (const k of ['VISUAL_EDITOR', 'PREVIEW', ...(preview ? ['on'] : [])]) u.searchParams.delete(k); same(page.url, u.href, 'address in the editor'); }
        if (editor && !setup) ctx.cls('severed');
        check('the load');
        for (const o of c.ops) {
          if (page.navigations.length) break;
          if (o.op === 'message') {
            const x = o.data; const data = x.kind === 'open' ? { type: 'OpenOverlay', context: { injectSrc: x.src[0], amplitudeWindowUrl: 'https://app.amplitude.com' } } : x.data;
            const ok = listening && o.origin[1] && x.kind === 'open' && x.src[1];
            if (ok && state === 'closed') load(x.src[0]); else if (listening && state === 'closed') { refused++; if (x.kind === 'odd') toErr++; }
            w.dispatchEvent(new w.MessageEvent('message', { origin: o.origin[0], data }));
          } else if (o.op === 'script') { const s = scripts(); const i = s.length - 1; if (i < 0 || settledScripts.has(i) || i !== current) continue; settledScripts.add(i); s[i].dispatchEvent(new w.Event(o.how)); await settle(2); if (o.how === 'error') { state = 'closed'; messenger = 'error'; since = null; } else { state = 'open'; messenger = 'loaded'; } }
          else if (o.op === 'time') await v.clock.advance(o.ms);
          else if (o.op === 'body') { if (!body) { html.appendChild(bodyElement); body = true; await v.clock.advance(50); if (since !== null && v.clock.now - since >= 10000) since = null; insert(); } }
          else if (o.op === 'navigate') { w.history.pushState({}, '', o.to); await v.clock.advance(20); }
          else if (o.op === 'element') { if (!body || late) continue; late = true; const e = d.createElement('div'); e.className = 'late'; d.body.appendChild(e); await v.clock.advance(1200); }
          else if (o.op === 'close') { const bs = d.querySelectorAll(`#${BANNER} [data-action=close]`); if (!bs.length) continue; same(bs.length, 2, 'buttons that close the notice'); bs[o.i].click(); closed = true; ctx.cls('closed'); }
          else if (o.op === 'pages') { const was = page.activePages(); page.client.setPageObjects(o.set === 'A' ? pages : built(o.set)); await v.clock.advance(1200); if (editor && setup) { set = o.set; replaced++; } else if (!editor) same(page.activePages(), was, 'active pages after the pages of the editor were set outside of it'); }
          else if (o.op === 'hide') { d.dispatchEvent(new w.Event('visibilitychange')); }
          await settle(2); check(show(o));
        }
        ctx.cls('loaded', loads > 0); ctx.cls('again', again > 0); ctx.cls('refused', refused > 0); ctx.cls('late', c.bodyless && loads > 0); ctx.nontrivial(loads > 0 || refused > 0);
      } finally { v.close(); await settle(1); }
    } }],
};
