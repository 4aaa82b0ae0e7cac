import { main } from './lib/runner.mjs';
main(process.argv.slice(2)).catch((e) => { console.error(e && e.stack || e); process.exit(2); });
