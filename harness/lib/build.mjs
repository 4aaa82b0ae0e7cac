// Bundles the sources of /repo's working tree (never its dist) with esbuild.
import path from 'path';
import vm from 'vm';
import fs from 'fs';
import { esbuild, REPO, VERIF } from './paths.mjs';

const P = (p) => `${REPO}/packages/${p}`;
const exists = (p) => fs.existsSync(p);
const ALIAS = {
  '@amplitude/experiment-core': P('experiment-core/src/index.ts'),
  '@amplitude/experiment-js-client': P('experiment-browser/src/index.ts'),
  '@amplitude/analytics-connector': P('analytics-connector/src/index.ts'),
  '@amplitude/experiment-plugin-segment': P('plugin-segment/src/index.ts'),
};
const mutator = path.join(VERIF, 'harness/lib/dom-mutator.mjs');
const plugin = {
  name: 'aliases',
  setup(b) {
    b.onResolve({ filter: /^dom-mutator(\/|$)/ }, () => ({ path: mutator }));
    b.onResolve({ filter: /^@amplitude\// }, (a) => (ALIAS[a.path] ? { path: ALIAS[a.path] } : undefined));
    b.onResolve({ filter: /^src\// }, (a) => {
      // baseUrl style imports used inside some packages
      const m = /packages\/([^/]+)\//.exec(a.importer || '');
      if (!m) return undefined;
      const base = P(`${m[1]}/${a.path}`);
      for (const c of [base + '.ts', base + '/index.ts', base]) if (exists(c)) return { path: c };
      return undefined;
    });
  },
};
async function bundle(entry, format) {
  const r = await esbuild.build({
    stdin: { contents: entry, resolveDir: REPO, loader: 'ts', sourcefile: 'entry.ts' },
    bundle: true, format, globalName: '__M', platform: 'browser', write: false,
    nodePaths: [REPO + '/node_modules'], plugins: [plugin], target: 'es2020', logLevel: 'silent',
    define: { 'process.env.NODE_ENV': '"production"' },
    charset: 'utf8', legalComments: 'none',
  });
  return r.outputFiles[0].text;
}
/** namespace -> file (relative to packages/) */
export const ENTRIES = {
  core: {
    index: 'experiment-core/src/index.ts',
    murmur3: 'experiment-core/src/evaluation/murmur3.ts',
  },
  browser: {
    index: 'experiment-browser/src/index.ts',
    core: 'experiment-core/src/index.ts',
    connector: 'analytics-connector/src/index.ts',
    segment: 'plugin-segment/src/index.ts',
    integration: 'experiment-browser/src/integration/manager.ts',
    amplitude: 'experiment-browser/src/integration/amplitude.ts',
    state: 'experiment-browser/src/util/state.ts',
    sessionExposure: 'experiment-browser/src/util/userSessionExposureTracker.ts',
    base64: 'experiment-browser/src/util/base64.ts',
    ampLogger: 'experiment-browser/src/logger/ampLogger.ts',
  },
  tag: {
    index: 'experiment-tag/src/index.ts',
    experiment: 'experiment-tag/src/experiment.ts',
    gate: 'experiment-tag/src/consent/consent-gate.ts',
    storage: 'experiment-tag/src/util/storage.ts',
    cookie: 'experiment-tag/src/util/cookie.ts',
    consentCookie: 'experiment-tag/src/consent/consent-cookie-storage.ts',
    clearData: 'experiment-tag/src/consent/clear-data.ts',
    impressions: 'experiment-tag/src/consent/consent-impression-buffer.ts',
    consentManager: 'experiment-tag/src/consent/consent-manager.ts',
    url: 'experiment-tag/src/util/url.ts',
    campaign: 'experiment-tag/src/util/campaign.ts',
    config: 'experiment-tag/src/util/config.ts',
    antiFlicker: 'experiment-tag/src/util/anti-flicker.ts',
    stylesheet: 'experiment-tag/src/util/csp-safe-stylesheet.ts',
    bus: 'experiment-tag/src/subscriptions/message-bus.ts',
    subs: 'experiment-tag/src/subscriptions/subscriptions.ts',
    eventStorage: 'experiment-tag/src/behavioral-targeting/event-storage.ts',
    session: 'experiment-tag/src/behavioral-targeting/session-manager.ts',
    evaluator: 'experiment-tag/src/behavioral-targeting/evaluator.ts',
    btManager: 'experiment-tag/src/behavioral-targeting/behavioral-targeting-manager.ts',
    relay: 'experiment-tag/src/behavioral-targeting/relay-client.ts',
    core: 'experiment-core/src/index.ts',
    browser: 'experiment-browser/src/index.ts',
  },
};
function entrySource(name) {
  return Object.entries(ENTRIES[name]).map(([ns, f]) => `export * as ${ns} from '${P(f)}';`).join('\n');
}
const cache = new Map();
/** Text of the bundle as `(function(__scope){ with(__scope){ ... return exports } })`. */
export async function scopedBundle(name) {
  if (cache.has(name)) return cache.get(name);
  const p = (async () => {
    const text = await bundle(entrySource(name), 'iife');
    const body = text.replace(/^\s*"use strict";/, '');
    const src = `(function(__scope){with(__scope){return (function(){"use strict";\n${body}\nreturn __M;}).call(undefined)}})`;
    const fn = new vm.Script(src, { filename: `bundle-${name}.js` }).runInThisContext();
    return fn;
  })();
  cache.set(name, p);
  return p;
}
/** The bundle as a script that leaves its exports in the global `__M` of the context it runs in. */
export async function bundleScript(name) {
  const k = 'script:' + name;
  if (!cache.has(k)) cache.set(k, bundle(entrySource(name), 'iife').then((text) => new vm.Script(text, { filename: `bundle-${name}.js` })));
  return cache.get(k);
}
/** Evaluates the bundle once in node's own globals (for pure code). */
export async function plainBundle(name) {
  const text = await bundle(entrySource(name), 'iife');
  return new vm.Script(`(function(){${text}\nreturn __M;})()`, { filename: `bundle-${name}.js` }).runInThisContext();
}
