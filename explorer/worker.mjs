// Explores, depth first, all choice sequences of one suite under a given prefix.
import { parentPort, workerData, isMainThread } from 'node:worker_threads';
import { Host, Universe, loadGlue, Violation, EngineError } from './host.mjs';

export class Runner {
  constructor(glue, heart) {
    this.glue = glue;
    this.host = new Host();
    this.heart = heart || null; // Int32Array: [progress, length, choices...]
    this.uni = null;
    this.states = new Set(); this.outcomes = new Set();
    this.transitions = 0; this.executions = 0; this.instances = 0; this.want1 = null; this.ignored = 0;
    this.tracing = 0; this.logs = [];
    const self = this, h = this.host;
    const text = (p, n) => self.uni.str(p, n);
    this.env = {
      choose(n) {
        const i = self.pos++;
        let c = 0;
        if (i < self.prefix.length) {
          c = self.prefix[i];
          if (i < self.want.length && self.want[i] !== n) throw new EngineError('divergence while replaying: choice ' + i + ' had ' + self.want[i] + ' alternatives, now ' + n);
          if (c >= n) throw new EngineError('replayed choice ' + i + ' out of range: ' + c + ' of ' + n);
        }
        self.path.push(c); self.arity.push(n);
        if (self.heart && i < 4000) { self.heart[2 + i] = c; self.heart[1] = i + 1; }
        return c;
      },
      state(x) { if (self.states.size < 3000000) self.states.add(x); else self.stateCap = true; },
      outcome(x) { if (self.outcomes.size < 1000000) self.outcomes.add(x); },
      step() { self.transitions++; },
      bound() { return self.bound; },
      tracing() { return self.tracing; },
      log(p, n) { self.logs.push(text(p, n)); },
      fail(p, n) { throw new Violation(text(p, n)); },
      engine_error(p, n) { throw new EngineError(text(p, n)); },
      panicked(p, n) { self.panicMsg = text(p, n); },
      host_now() { return h.us; },
      host_pass(us) { h.us += us; h.dateMs += us / 1000; },
      host_fire() { h.fire(); },
      host_pending() { return h.timers.length; },
      host_next_due() { return h.timers.length ? h.timers[0].due : -1; },
      host_cfg(s, m, c, r) { if (s >= 0) h.us = s; h.minDelay = m; h.cbCost = c; h.readCost = r; },
      host_res(us) { h.res = us; },
      host_date(ms) { h.dateMs = ms; },
      host_perf(ms) { h.perfAt = ms; },
      expect_panic(on) { self.expectPanic = !!on; },
      host_stat(i) { return [h.nTimeout, h.nFired, h.maxPending, h.nPerf, h.lastDelay][i]; },
    };
  }
  fresh() { this.uni = new Universe(this.glue, this.host, this.env); this.instances++; }
  // One execution of the real code. Returns the violation message, or null.
  exec(suite, bound, prefix, want, forceFresh) {
    if (!this.uni || forceFresh || this.dirty || !this.uni.restore()) { this.uni = null; this.fresh(); }
    this.dirty = false;
    this.prefix = prefix; this.want = want || []; this.pos = 0; this.path = []; this.arity = [];
    this.bound = bound; this.panicMsg = null; this.logs = []; this.expectPanic = false;
    if (this.heart) { this.heart[1] = 0; Atomics.add(this.heart, 0, 1); }
    this.executions++;
    try {
      this.uni.x.h_run(suite);
      if (this.pos < prefix.length) throw new EngineError('execution ended before its prefix: ' + this.pos + ' < ' + prefix.length);
      if (this.expectPanic) return 'no panic where one was required';
      return null;
    } catch (e) {
      this.dirty = true;
      if (e instanceof Violation) return e.message;
      if (e instanceof EngineError) throw e;
      if (this.panicMsg !== null && this.expectPanic) {
        if (this.pos < prefix.length) throw new EngineError('execution panicked before its prefix ended');
        return null;
      }
      if (this.panicMsg !== null) return 'panic: ' + this.panicMsg;
      if (e instanceof WebAssembly.RuntimeError || e instanceof RangeError) return 'trap: ' + e.message;
      return 'exception: ' + (e && e.message || e);
    }
  }
  counts(v) { return !this.want1 || this.want1.some((t) => v.includes(t)); }
  // breadth-first expansion of the choice tree into disjoint prefixes that cover it
  split(suite, bound, target) {
    let open = [[]]; const leaves = []; let probes = 0;
    while (open.length && open.length + leaves.length < target) {
      const p = open.shift();
      const v = this.exec(suite, bound, p, []);
      probes++;
      if (v !== null && this.counts(v)) return { violation: v, choices: this.path, probes };
      if (this.path.length <= p.length) { leaves.push(p); continue; }
      for (let c = 0; c < this.arity[p.length]; c++) open.push([...this.path.slice(0, p.length), c]);
    }
    return { tasks: [...open, ...leaves], probes };
  }
  // All executions under `prefix`; stops at the first violation or at the deadline.
  explore(suite, bound, prefix, deadline) {
    const fixed = prefix.length;
    let cur = prefix, want = [];
    for (;;) {
      const v = this.exec(suite, bound, cur, want);
      if (v !== null && this.counts(v)) return { violation: v, choices: this.path };
      if (v !== null && ++this.ignored > 3000) return { done: false, choices: this.path };
      // next choice sequence in lexicographic order
      const path = this.path, ar = this.arity;
      let i = path.length - 1;
      while (i >= fixed && path[i] + 1 >= ar[i]) i--;
      if (i < fixed) return { done: true };
      cur = path.slice(0, i + 1); cur[i]++;
      want = ar.slice(0, i + 1);
      if ((this.executions & 255) === 0 && Date.now() > deadline) return { done: false, choices: cur };
    }
  }
}

if (!isMainThread && workerData && workerData.heart) {
  const glues = {};
  const runners = {};
  const heart = new Int32Array(workerData.heart);
  parentPort.on('message', (m) => {
    try {
      const dir = workerData.variants[m.variant];
      glues[m.variant] ||= loadGlue(dir);
      const key = m.variant + '/' + m.suite + '/' + m.bound;
      if (!runners[key]) {
        for (const k of Object.keys(runners)) delete runners[k];
        runners[key] = new Runner(glues[m.variant], heart);
      }
      const r = runners[key];
      r.want1 = m.want || null;
      const t0 = r.transitions, e0 = r.executions, i0 = r.ignored;
      if (m.collect) {
        parentPort.postMessage({ id: m.id, states: Float64Array.from(r.states), outcomes: Float64Array.from(r.outcomes), capped: !!r.stateCap });
        return;
      }
      if (m.split) {
        // the probes' executions are repeated by the exploration: only their verdicts count
        const p = new Runner(glues[m.variant], heart); p.want1 = r.want1;
        parentPort.postMessage({ id: m.id, res: p.split(m.suite, m.bound, m.split) });
        return;
      }
      const res = r.explore(m.suite, m.bound, m.prefix, m.deadline);
      parentPort.postMessage({ id: m.id, res, transitions: r.transitions - t0, executions: r.executions - e0, ignored: r.ignored - i0 });
    } catch (e) {
      parentPort.postMessage({ id: m.id, error: (e && e.stack) || String(e) });
    }
  });
}
