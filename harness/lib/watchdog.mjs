// Runs in a thread beside the checks: when the case counter stands still for too long, the code under test spins. It records the case
// and ends the process; the parent (runner.mjs) reports it.
import { workerData as d } from 'worker_threads';
import fs from 'fs';
const p = new Int32Array(d.buffer);
let last = -1, since = Date.now();
setInterval(() => {
  const n = Atomics.load(p, 0);
  if (n !== last) { last = n; since = Date.now(); return; }
  if (Date.now() - since < d.limit * 1000) return;
  fs.writeFileSync(d.file, JSON.stringify({ ...d.note, evaluation: n, message: `evaluation ${n} does not end` }, null, 1));
  process.kill(process.pid, 'SIGKILL');
}, 500);
