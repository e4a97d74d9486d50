// The JS host that wasmtimer runs on, under the explorer's control: a virtual
// clock (performance.now, Date.now), setTimeout/clearTimeout, and the loader of
// the wasm-bindgen glue in which every host global is shadowed by these.
import fs from 'node:fs';

export class Violation extends Error {}
export class EngineError extends Error {}

const LIMITS = { callbacks: 300000, timeouts: 400000, perfReads: 2000000, pending: 20000 };

export class Host {
  constructor() {
    this.reset();
    const self = this;
    this.performance = { now() { return self.perfNow(); } };
    this.global = {
      performance: this.performance,
      setTimeout: (f, ms) => self.setTimeout(f, ms),
      clearTimeout: (t) => self.clearTimeout(t),
      // timers only ever read the clock and call setTimeout; anything else is real
      Object, Function, Array, Promise, Reflect, Error, Math, JSON, Symbol, Number, String, Boolean,
    };
    this.global.globalThis = this.global;
    this.Date = new Proxy(Date, {
      get: (t, k) => (k === 'now' ? () => self.dateMs : t[k]),
      construct: (t, a) => (a.length ? new t(...a) : new t(self.dateMs)),
    });
    this.global.Date = this.Date;
    this.global.setInterval = () => { throw new EngineError('setInterval is not modelled'); };
    this.global.queueMicrotask = (f) => { self.micro.push(f); };
  }
  reset() {
    this.us = 1234567; // host clock, microseconds (integer)
    this.dateMs = 1700000000000;
    this.perfAt = -1; // ms; overrides the clock reading when not negative
    this.minDelay = 0; // us added as the lower bound of every setTimeout
    this.cbCost = 0; // us that pass while a callback runs
    this.readCost = 0; // us that pass at every read of performance.now
    this.res = 0; // us; the resolution of performance.now (0: exact)
    this.seq = 0;
    this.timers = []; // sorted by (due, seq)
    this.micro = [];
    this.nTimeout = 0; this.nFired = 0; this.nPerf = 0; this.maxPending = 0; this.lastDelay = -1;
  }
  perfNow() {
    this.us += this.readCost;
    if (++this.nPerf > LIMITS.perfReads) throw new Violation('performance.now() read ' + this.nPerf + ' times in one bounded history: code does not terminate');
    if (this.perfAt >= 0) return this.perfAt;
    return (this.res > 0 ? this.us - this.us % this.res : this.us) / 1000;
  }
  setTimeout(f, ms) {
    if (++this.nTimeout > LIMITS.timeouts) throw new Violation('setTimeout called ' + this.nTimeout + ' times in one bounded history: busy loop');
    if (typeof f !== 'function') throw new EngineError('setTimeout of a non-function');
    ms = Number(ms);
    // HTML: NaN and negative count as 0; values are 32-bit signed
    if (!(ms > 0)) ms = 0;
    if (ms > 2147483647) ms = 0;
    ms = Math.floor(ms);
    this.lastDelay = ms;
    const t = { due: this.us + Math.max(ms * 1000, this.minDelay), seq: this.seq++, f };
    let i = this.timers.length;
    while (i > 0 && this.timers[i - 1].due > t.due) i--;
    this.timers.splice(i, 0, t);
    if (this.timers.length > this.maxPending) this.maxPending = this.timers.length;
    if (this.timers.length > LIMITS.pending) throw new Violation('more than ' + LIMITS.pending + ' host timers outstanding');
    return t; // an object, as in node
  }
  clearTimeout(t) {
    const i = this.timers.indexOf(t);
    if (i >= 0) this.timers.splice(i, 1);
  }
  // runs the callback of the first pending timer now, whatever its due time
  fire() {
    const t = this.timers.shift();
    if (!t) throw new EngineError('fire without pending timer');
    if (++this.nFired > LIMITS.callbacks) throw new Violation('more than ' + LIMITS.callbacks + ' host callbacks in one bounded history: busy loop');
    t.f();
    while (this.micro.length) this.micro.shift()();
    this.us += this.cbCost;
  }
}

// Turns the glue of `wasm-bindgen --target web` into a factory of fresh instances.
export function loadGlue(dir) {
  const bytes = fs.readFileSync(dir + '/verif_harness_bg.wasm');
  let js = fs.readFileSync(dir + '/verif_harness.js', 'utf8');
  js = js.replace(/^[ \t]*import \* as (\w+) from ["']verif_env["'];?[ \t]*$/mg, 'const $1 = __verif_env;');
  js = js.replace(/^export .*$/mg, '').replace(/import\.meta\.url/g, '""');
  if (/^\s*import\s/m.test(js)) throw new EngineError('unexpected import left in the glue');
  js = '"use strict";\n' + js + '\nreturn { initSync };';
  const factory = new Function('__verif_env', 'globalThis', 'self', 'window', 'global', 'Date', 'performance', 'setTimeout', 'clearTimeout', 'FinalizationRegistry', js);
  const module = new WebAssembly.Module(bytes);
  return { factory, module };
}

export class Universe {
  constructor(glue, host, env) {
    const inst = glue.factory(env, host.global, host.global, undefined, undefined, host.Date, host.performance,
      host.global.setTimeout, host.global.clearTimeout, undefined);
    this.x = inst.initSync({ module: glue.module });
    this.host = host;
    host.reset();
    this.x.h_init(); // warm-up: installs the panic hook, grows the externref slab, reserves the arena
    if (host.timers.length) throw new EngineError('warm-up left host timers behind');
    this.base = this.x.h_data_base();
    this.bytes = this.x.memory.buffer.byteLength;
    this.table = this.x.__wbindgen_externrefs ? this.x.__wbindgen_externrefs.length : 0;
    this.snapLen = this.x.h_arena_end() - this.base;
    this.snap = new Uint8Array(this.x.memory.buffer).slice(this.base, this.base + this.snapLen);
    this.mem = new Uint8Array(this.x.memory.buffer);
  }
  // back to the state right after warm-up; false if only a fresh instance can do it
  restore() {
    if (this.x.memory.buffer.byteLength !== this.bytes) return false;
    if (this.x.__wbindgen_externrefs && this.x.__wbindgen_externrefs.length !== this.table) return false;
    this.mem.set(this.snap, this.base);
    this.host.reset();
    return true;
  }
  str(ptr, len) { return new TextDecoder().decode(new Uint8Array(this.x.memory.buffer, ptr, len)); }
}
