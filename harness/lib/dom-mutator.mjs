// Stand-in for the private dependency `dom-mutator` (not installable offline).
// It keeps a record of every declarative mutation that is in effect and applies
// "append/set html" and "class" style changes synchronously to matching nodes.
const g = globalThis;
const state = () => (g.__domMutator = g.__domMutator || { live: [], log: [], paused: 0, seq: 0 });
function declarative(m) {
  const s = state();
  const entry = { id: ++s.seq, mutation: m };
  s.live.push(entry);
  s.log.push({ type: 'apply', id: entry.id, mutation: m });
  return {
    revert() {
      const i = s.live.indexOf(entry);
      s.log.push({ type: 'revert', id: entry.id, mutation: m, wasLive: i >= 0 });
      if (i >= 0) s.live.splice(i, 1);
    },
  };
}
export const pauseGlobalObserver = () => { state().paused++; };
export const resumeGlobalObserver = () => { state().paused--; };
export const connectGlobalObserver = () => {};
export const disconnectGlobalObserver = () => {};
export const revertAll = () => { state().live.length = 0; };
export const validAttributeName = /^[a-zA-Z:_][a-zA-Z0-9:_.-]*$/;
export default { declarative };
