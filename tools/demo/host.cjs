// A virtual host: performance.now, Date.now and setTimeout under the demo's control.
let us = 1234567, seq = 0, fired = 0, dateMs = 1700000000000, timers = [];
const min = 1000;
globalThis.performance = { now: () => us / 1000 };
Object.defineProperty(globalThis, 'performance', { value: { now: () => us / 1000 }, configurable: true, writable: true });
Date.now = () => dateMs;
globalThis.setTimeout = (f, ms) => {
  ms = Number(ms); if (!(ms > 0) || ms > 2147483647) ms = 0;
  const t = { due: us + Math.max(Math.floor(ms) * 1000, min), seq: seq++, f };
  timers.push(t); timers.sort((a, b) => a.due - b.due || a.seq - b.seq);
  return t;
};
const fire = () => { if (++fired > 200000) { console.log('busy loop'); process.exit(1); } timers.shift().f(); };
globalThis.demo = {
  now: () => us,
  pass: (d) => { us += d; },
  date: (ms) => { dateMs = ms; },
  perf: (x) => { us = x; },
  // a punctual host for d microseconds
  run: (d) => { const end = us + d; while (timers.length && timers[0].due <= end) { if (timers[0].due > us) us = timers[0].due; fire(); } if (us < end) us = end; },
  // one timer that is due now
  turn: () => { if (timers.length && timers[0].due <= us) fire(); },
  fired: () => fired,
  pending: () => timers.length,
  say: (s) => console.log(s),
};
try { require(process.argv[2]).run_demo(); } catch (e) { console.log(String(e && e.message || e)); process.exit(1); }
process.exit(0);
