import { scopedBundle } from '../lib/build.mjs';
import { tagPage, Clock } from '../lib/taglight.mjs';
import { same, fail, show } from '../lib/runner.mjs';
/** A document with constructable stylesheets, possibly shadow roots without them. */
function styledPage(bundle, clock) {
  class CSSStyleSheet { replaceSync(t) { this.text = t; } }
  const page = tagPage({ bundle, clock, globals: { CSSStyleSheet, Node: { DOCUMENT_NODE: 9 } } });
  const d = page.document; d.nodeType = 9; let list = Object.freeze([]); const sets = [];
  Object.defineProperty(d, 'adoptedStyleSheets', { get: () => list, set: (v) => { list = Object.freeze([...v]); sets.push(list.length); }, configurable: true });
  d.defaultView = page.scope; page.snippet = null; d.getElementById = (id) => (id === 'amp-exp-css' ? page.snippet : null);
  page.Sheet = CSSStyleSheet; page.addForeign = (t) => { const s = new CSSStyleSheet(); s.replaceSync(t); d.adoptedStyleSheets = [...d.adoptedStyleSheets, s]; return s; };
  return page;
}
const overlayOp = (fc) => fc.oneof({ weight: 4, arbitrary: fc.constantFrom({ op: 'apply' }, { op: 'remove' }) }, { weight: 4, arbitrary: fc.record({ op: fc.constant('time'), ms: fc.constantFrom(1, 400, 500, 999, 1000, 1001) }) }, { weight: 1, arbitrary: fc.constantFrom({ op: 'snippet' }, { op: 'foreign' }, { op: 'foreign-gone' }) });
const sheetOp = (fc) => fc.oneof({ weight: 3, arbitrary: fc.record({ op: fc.constant('create'), root: fc.constantFrom('document', 'shadow', 'synthetic', 'frame', 'frame shadow'), css: fc.constantFrom('a{}', 'b{}') }) }, { weight: 5, arbitrary: fc.record({ op: fc.constantFrom('revert', 'reapply'), i: fc.nat(5) }) }, { weight: 1, arbitrary: fc.constantFrom({ op: 'foreign' }, { op: 'foreign-gone' }) });
export default {
  id: 'T18', level: 'exploration',
  rule: 'a case is non-trivial when an overlay is applied again after its removal within the timeout, or a stylesheet is reverted and re-applied',
  assumptions: ['the page replaces document.adoptedStyleSheets only by adding or removing its own sheets'],
  async setup() { return { bundle: await scopedBundle('tag') }; },
  parts: [{
    name: 'overlay', what: 'apply, remove and time in any order', runs: { quick: 3000, thorough: 100000 }, expect: { again: 0.2 },
    arb: (fc) => fc.array(overlayOp(fc), { minLength: 2, maxLength: 16, size: 'max' }),
    async check(ops, ctx, { bundle }) {
      const clock = new Clock(); const page = styledPage(bundle, clock); const a = page.M.antiFlicker; let since = null, again = 0, removedAt = -Infinity; let foreign = [];
      const check = (what) => {
        const own = page.document.adoptedStyleSheets.filter((s) => !foreign.includes(s));
        if (own.length !== (since === null ? 0 : 1)) fail(`${what}: ${own.length} overlays after ${since === null ? 'removal' : clock.now - since + ' ms'}`);
        if (own.length && !/visibility:\s*hidden/.test(own[0].text)) fail(`overlay hides nothing: ${own[0].text}`);
        same(page.document.adoptedStyleSheets.filter((s) => foreign.includes(s)).length, foreign.length, 'sheets of the page');
      };
      for (const o of ops) {
        if (o.op === 'apply') { a.applyAntiFlickerCss(); if (since === null) { since = clock.now; if (clock.now - removedAt < 1000) again++; } }
        else if (o.op === 'remove') { a.removeAntiFlickerCss(); if (since !== null) removedAt = clock.now; since = null; if (page.snippet) fail('the overlay element of the page snippet was left'); }
        else if (o.op === 'snippet') { const s = { remove() { if (page.snippet === s) page.snippet = null; } }; page.snippet = s; }
        else if (o.op === 'foreign') foreign.push(page.addForeign('x{}'));
        else if (o.op === 'foreign-gone') { if (foreign.length) { const g = foreign.pop(); page.document.adoptedStyleSheets = page.document.adoptedStyleSheets.filter((s) => s !== g); } }
        else { const t = clock.now + o.ms; const had = page.snippet && since !== null && since + 1000 <= t; if (since !== null && since + 1000 <= t) { removedAt = since + 1000; since = null; } await clock.advance(o.ms); if (had && page.snippet) fail('the timeout left the overlay element of the page snippet'); }
        check(`after ${show(o)}`);
      }
      await clock.advance(1000); since = null; check('one second after the last operation');
      ctx.nontrivial(again > 0); ctx.cls('again', again > 0);
    },
  }, {
    name: 'sheets', what: 'stylesheets on documents and shadow roots, reverted and re-applied', sync: true, runs: { quick: 3000, thorough: 100000 }, expect: { cycled: 0.2 },
    arb: (fc) => fc.array(sheetOp(fc), { minLength: 2, maxLength: 16, size: 'max' }),
    check(ops, ctx, { bundle }) {
      const page = styledPage(bundle, new Clock()); const d = page.document; let rootList = [];
      const shadow = { nodeType: 11, ownerDocument: d, get adoptedStyleSheets() { return rootList; }, set adoptedStyleSheets(v) { rootList = [...v]; } }; const synthetic = { nodeType: 11, ownerDocument: d };
      
      // a frame: a document of another realm, whose sheets can only be made by that realm
      class FrameSheet { replaceSync(t) { this.text = t; } } const realm = (get, set) => ({ get adoptedStyleSheets() { return get(); }, set adoptedStyleSheets(v) { if ([...v].some((x) => !(x instanceof FrameSheet))) throw new Error('NotAllowedError: a sheet of another realm'); set(Object.freeze([...v])); } });
      let frameList = Object.freeze([]), frameShadowList = Object.freeze([]); const frame = Object.defineProperties({ nodeType: 9, defaultView: { CSSStyleSheet: FrameSheet } }, Object.getOwnPropertyDescriptors(realm(() => frameList, (v) => { frameList = v; }))); const frameShadow = Object.defineProperties({ nodeType: 11, ownerDocument: frame }, Object.getOwnPropertyDescriptors(realm(() => frameShadowList, (v) => { frameShadowList = v; })));
      const TARGETS = { document: d, shadow, synthetic, frame, 'frame shadow': frameShadow };
      const all = []; const want = { doc: [], shadow: [], frame: [], frameShadow: [] }; let foreign = 0, cycled = 0; // want: ids in order
      const texts = (l) => l.map((s) => s.text);
      const check = (what) => { same(texts(d.adoptedStyleSheets), want.doc.map((x) => x.css), `sheets of the document ${what}`); same(texts(rootList), want.shadow.map((x) => x.css), `sheets of the shadow root ${what}`); same(texts(frameList), want.frame.map((x) => x.css), `sheets of the frame ${what}`); same(texts(frameShadowList), want.frameShadow.map((x) => x.css), `sheets of the shadow root in the frame ${what}`); if (d.adoptedStyleSheets.some((x) => !(x instanceof page.Sheet))) fail('a sheet of another realm in the document'); };
      for (const o of ops) {
        if (o.op === 'create') { const css = `${o.css}/*${all.length}*/`; const list = o.root === 'shadow' ? want.shadow : o.root === 'frame' ? want.frame : o.root === 'frame shadow' ? want.frameShadow : want.doc; const h = page.M.stylesheet.cspSafeStyleSheet(TARGETS[o.root], css); const e = { css, h, list, on: true }; all.push(e); list.push(e); }
        else if (o.op === 'foreign') { const e = { css: 'foreign' + foreign++, foreign: true }; page.addForeign(e.css); want.doc.push(e); }
        else if (o.op === 'foreign-gone') { const i = want.doc.findIndex((x) => x.foreign); if (i >= 0) { const css = want.doc[i].css; want.doc.splice(i, 1); d.adoptedStyleSheets = d.adoptedStyleSheets.filter((s) => s.text !== css); } }
        else if (all.length) { const e = all[o.i % all.length]; e.h[o.op](); if (o.op === 'revert' && e.on) { e.list.splice(e.list.indexOf(e), 1); e.on = false; } else if (o.op === 'reapply' && !e.on) { e.list.push(e); e.on = true; cycled++; } }
        check(`after ${show(o)}`);
      }
      for (const e of all) e.h.revert();
      same(texts(d.adoptedStyleSheets), want.doc.filter((x) => x.foreign).map((x) => x.css), 'sheets left after reverting everything'); same(rootList.length, 0, 'sheets left in the shadow root'); same([frameList.length, frameShadowList.length], [0, 0], 'sheets left in the frame');
      ctx.nontrivial(cycled > 0); ctx.cls('cycled', cycled > 0);
    },
  }],
};
