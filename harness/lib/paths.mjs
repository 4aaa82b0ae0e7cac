import { createRequire } from 'module';
import path from 'path';
import { fileURLToPath } from 'url';
export const VERIF = path.resolve(path.dirname(fileURLToPath(import.meta.url)), '../..');
export const REPO = process.env.VERIF_REPO || '/repo';
const vt = createRequire('/opt/veriftools/node/node_modules/');
const rt = createRequire(REPO + '/node_modules/');
export const fc = vt('fast-check');
export const esbuild = vt('esbuild');
export const repoRequire = rt;
