// Confirms that the pre-installed tools the checks need are there and that the sources bundle.
import { scopedBundle, ENTRIES } from './lib/build.mjs';
import { fc, repoRequire } from './lib/paths.mjs';
for (const n of Object.keys(ENTRIES)) await scopedBundle(n);
console.log('fast-check', fc.__version, 'jsdom', repoRequire('jsdom/package.json').version, 'bundles ok');
