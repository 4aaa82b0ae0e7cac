// Browser-like cookie jar shared by pages of several hosts: domain and host-only
// scope, expiry on the virtual clock, rejected public suffixes, blocked mode.
const SUFFIXES = new Set(['com', 'uk', 'co.uk', 'org', 'app', 'vercel.app', 'io', 'github.io', 'net', 'localhost', 'dev', 'fly.dev', 'b.c', 'c']);
export class Jar {
  constructor(clock) { this.clock = clock; this.list = []; this.blocked = false; this.seq = 0; this.writes = []; }
  /** document.cookie of a page on `host`. */
  text(host) {
    if (this.blocked) return '';
    this.expire();
    return this.list.filter((c) => this.visible(c, host)).sort((a, b) => a.seq - b.seq).map((c) => (c.name === '' ? c.value : `${c.name}=${c.value}`)).join('; ');
  }
  visible(c, host) { return c.hostOnly ? host === c.domain : host === c.domain || host.endsWith('.' + c.domain); }
  expire() { this.list = this.list.filter((c) => c.expires === undefined || c.expires > this.clock.now); }
  set(host, line, secure = true) {
    if (this.blocked) return;
    const parts = String(line).split(';'); const pair = parts.shift();
    const i = pair.indexOf('='); const name = i < 0 ? '' : pair.slice(0, i).trim(); const value = (i < 0 ? pair : pair.slice(i + 1)).trim();
    let domain = host, hostOnly = true, expires, maxAge, needsSecure = false;
    for (const p of parts) {
      const j = p.indexOf('='); const k = (j < 0 ? p : p.slice(0, j)).trim().toLowerCase(); const v = j < 0 ? '' : p.slice(j + 1).trim();
      if (k === 'domain' && v) { const d = v.replace(/^\./, '').toLowerCase(); if (d === host && (SUFFIXES.has(d) || !d.includes('.'))) { hostOnly = true; continue; } if (SUFFIXES.has(d) || !(host === d || host.endsWith('.' + d))) return; domain = d; hostOnly = false; }
      else if (k === 'expires') { const t = new Date(v).getTime(); if (!Number.isNaN(t)) expires = t; }
      else if (k === 'max-age') { if (/^-?\d+$/.test(v)) maxAge = Number(v); }
      else if (k === 'secure') needsSecure = true;
    }
    if (needsSecure && !secure) return;
    if (name.length + value.length > 4096) return;
    const at = maxAge !== undefined ? this.clock.now + maxAge * 1000 : expires;
    const old = this.list.find((c) => c.name === name && c.domain === domain && c.hostOnly === hostOnly);
    this.list = this.list.filter((c) => c !== old);
    const gone = at !== undefined && at <= this.clock.now;
    this.writes.push({ name, domain, hostOnly, gone });
    if (gone) return;
    this.list.push({ name, value, domain, hostOnly, expires: at, seq: old ? old.seq : this.seq++ });
  }
  get(host, name) { this.expire(); const c = this.list.filter((x) => x.name === name && this.visible(x, host)).sort((a, b) => a.seq - b.seq)[0]; return c && c.value; }
  dump() { this.expire(); return this.list.map((c) => `${c.name}@${c.hostOnly ? '' : '.'}${c.domain}=${c.value}`).sort(); }
  drop(pred) { this.list = this.list.filter((c) => !pred(c)); }
}
