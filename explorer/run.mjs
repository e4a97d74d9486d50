// Runs the check of one property: builds nothing, explores every suite of the
// property in the given build variants, writes the evidence, prints the verdict.
//   node run.mjs PROPERTY TIER BUILD_DIR EVIDENCE_DIR REPLAY_DIR KNOWN_FILE
import { Worker } from 'node:worker_threads';
import fs from 'node:fs';
import path from 'node:path';
import os from 'node:os';
import { fileURLToPath } from 'node:url';
import { Runner } from './worker.mjs';
import { loadGlue } from './host.mjs';

const here = path.dirname(fileURLToPath(import.meta.url));
const [prop, tier, buildDir, evidenceDir, replayDir, knownFile] = process.argv.slice(2);
const seed = parseInt(process.env.VERIF_SEED || '1', 10) || 1;
const only = process.env.VERIF_SUITE;
const t00 = Date.now();
const NW = Math.max(1, Math.min(parseInt(process.env.VERIF_WORKERS || '0', 10) || os.availableParallelism(), 16));
const BUDGET = (parseFloat(process.env.VERIF_BUDGET || '0') || (tier === 'thorough' ? 780 : 600)) * 1000;
const end = t00 + BUDGET;
const HANG = 30000;

const wanted = (process.env.VERIF_VARIANTS || "").split(" ").filter(Boolean);
const variants = {};
for (const v of fs.readdirSync(buildDir)) if ((!wanted.length || wanted.includes(v)) && fs.existsSync(path.join(buildDir, v, 'verif_harness.js'))) variants[v] = path.join(buildDir, v);

const known = fs.existsSync(knownFile) ? JSON.parse(fs.readFileSync(knownFile, 'utf8')).findings || [] : [];

class Pool {
  constructor(n) { this.ws = []; for (let i = 0; i < n; i++) this.spawn(i); this.next = 1; }
  spawn(i) {
    const heart = new SharedArrayBuffer(4 * 4096);
    const w = new Worker(path.join(here, 'worker.mjs'), { workerData: { heart, variants }, resourceLimits: { maxOldGenerationSizeMb: 1500 } });
    const s = { w, heart: new Int32Array(heart), busy: null, seen: -1, seenAt: 0 };
    w.on('message', (m) => { const b = s.busy; s.busy = null; b.resolve(m); });
    w.on('error', (e) => { const b = s.busy; s.busy = null; if (b) b.resolve({ error: 'worker died: ' + e.message }); });
    this.ws[i] = s;
  }
  send(i, m) {
    const s = this.ws[i];
    m.id = this.next++;
    return new Promise((resolve) => { s.busy = { resolve, m }; s.seen = -1; s.seenAt = Date.now(); s.w.postMessage(m); });
  }
  // an execution that makes no progress for HANG ms does not terminate
  watch() {
    for (let i = 0; i < this.ws.length; i++) {
      const s = this.ws[i];
      if (!s.busy || s.busy.m.collect) continue;
      const now = Date.now(), p = Atomics.load(s.heart, 0);
      if (p !== s.seen) { s.seen = p; s.seenAt = now; continue; }
      if (now - s.seenAt > HANG) {
        const n = s.heart[1], choices = Array.from(s.heart.subarray(2, 2 + Math.min(n, 4000)));
        const b = s.busy; s.busy = null;
        s.w.terminate(); this.spawn(i);
        b.resolve({ res: { violation: 'one bounded execution did not terminate within ' + HANG / 1000 + ' s', choices, hang: true }, transitions: 0, executions: 1 });
      }
    }
  }
  async close() { for (const s of this.ws) await s.w.terminate(); }
}

async function main() {
  const glues = {};
  const rows = [];
  const plan = [];
  const plain = (v) => v.startsWith('plain-') ? 1 : 0;
  for (const v of Object.keys(variants).sort((a, b) => plain(a) - plain(b) || (a < b ? -1 : 1))) {
    glues[v] = loadGlue(variants[v]);
    const r = new Runner(glues[v]); r.fresh();
    const n = r.uni.x.h_suites();
    const list = JSON.parse(r.uni.str(r.uni.x.h_text(), n));
    list.forEach((s, i) => {
      if (!s.variants.includes(v.replace('plain-', '')) || (only && s.name !== only)) return;
      if (s.prop === prop) plan.push({ variant: v, i, ...s });
      for (const a of s.also) if (a.prop === prop) plan.push({ variant: v, i, ...s, quick: a.quick, deep: a.deep, want: a.want, from: s.prop });
    });
  }
  if (!plan.length) { console.error('no suite for ' + prop); process.exit(2); }
  const pool = new Pool(NW);
  const timer = setInterval(() => pool.watch(), 1000);
  const samples = [], knownHits = [];
  let violation = null, complete = true;
  const tot = { states: 0, transitions: 0, executions: 0, outcomes: 0, replays: 0 };

  suites: for (const s of plan) {
    const t0 = Date.now();
    // in the thorough tier a suite may use twice its even share of the time that is left
    const deadline = tier !== 'thorough' ? end : Math.min(end, t0 + 2 * (end - t0) / (plan.length - rows.length + 1));
    const max = tier === 'thorough' ? s.deep : s.quick;
    const min = Math.min(max, s.min);
    const row = { suite: s.name, build: s.variant, what: s.what, ...(s.from ? { of: s.from, counted: s.want } : {}), bound: max, bound_unit: s.unit, executions: 0, transitions: 0, exhaustive: true };
    for (let bound = min; bound <= max; bound++) {
      const sm = await pool.send(0, { variant: s.variant, suite: s.i, bound, want: s.want, split: NW * 24 });
      if (sm.error) throw new Error(sm.error);
      const sp = sm.res;
      if (sp.violation) { violation = { s, bound, message: sp.violation, choices: sp.choices, hang: sp.hang }; }
      let done = true;
      if (!violation) {
        const q = sp.tasks.slice();
        // the order of the prefixes is the only use of the seed
        for (let k = q.length - 1, x = seed >>> 0; k > 0; k--) { x = (Math.imul(x, 1664525) + 1013904223) >>> 0; const j = x % (k + 1); [q[k], q[j]] = [q[j], q[k]]; }
        await Promise.all(pool.ws.map(async (_, wi) => {
          while (q.length && !violation) {
            if (Date.now() > deadline) { done = false; return; }
            const prefix = q.pop();
            const m = await pool.send(wi, { variant: s.variant, suite: s.i, bound, prefix, deadline, want: s.want });
            if (m.error) throw new Error(m.error);
            row.executions += m.executions; row.transitions += m.transitions; if (m.ignored) row.ignored_other = (row.ignored_other || 0) + m.ignored;
            if (m.res.violation) { violation ||= { s, bound, message: m.res.violation, choices: m.res.choices, hang: m.res.hang }; return; }
            if (!m.res.done) done = false;
          }
        }));
        if (bound === max || violation || !done) {
          const st = new Set(), oc = new Set();
          for (let wi = 0; wi < pool.ws.length; wi++) {
            const m = await pool.send(wi, { variant: s.variant, suite: s.i, bound, collect: true });
            if (m.error) throw new Error(m.error);
            for (const x of m.states) st.add(x);
            for (const x of m.outcomes) oc.add(x);
            if (m.capped) row.states_capped = true;
          }
          row.states = st.size; row.distinct_outcomes = oc.size;
        }
      }
      if (violation || !done) { if (!done) { row.exhaustive = false; row.completed_bound = bound - 1; complete = false; } break; }
    }
    row.wall_s = (Date.now() - t0) / 1000;
    rows.push(row);
    tot.states += row.states || 0; tot.transitions += row.transitions; tot.executions += row.executions; tot.outcomes += row.distinct_outcomes || 0;
    if (violation) break;
    // samples: the first and one middle execution, written out, run on fresh instances and compared with the snapshot-restored run
    const r = new Runner(glues[s.variant]);
    const picks = [[]];
    r.exec(s.i, max, [], []);
    if (r.arity.length) { const a = r.arity.map((n) => 0); a[0] = r.arity[0] >> 1; picks.push(a.slice(0, 1)); }
    for (const p of picks) {
      r.tracing = 1; r.exec(s.i, max, p, [], true); const a = r.logs.slice(), pa = r.path.slice();
      r.exec(s.i, max, pa, [], false); r.tracing = 0;
      if (JSON.stringify(a) !== JSON.stringify(r.logs)) throw new Error('fresh instance and restored snapshot disagree on ' + s.name + ' ' + JSON.stringify(pa));
      tot.replays++;
      if (samples.length < 8) samples.push({ suite: s.name, build: s.variant, choices: pa.slice(0, 60), trace: a.slice(0, 24) });
    }
    console.log(`${prop} ${s.variant}/${s.name}: bound ${max} (${s.unit}), ${row.executions} executions, ${row.transitions} transitions, ${row.states} states, ${row.distinct_outcomes} outcomes, ${row.wall_s.toFixed(1)} s${row.exhaustive ? '' : ' INCOMPLETE'}`);
  }
  clearInterval(timer);

  let exit = 0;
  if (violation) {
    const v = violation, file = path.join(replayDir, `${prop}-${v.s.variant}-${v.s.name}.json`);
    let trace = [];
    if (!v.hang) {
      // the same schedule must fail the same way, twice, on fresh instances
      for (let k = 0; k < 2; k++) {
        const r = new Runner(glues[v.s.variant]); r.tracing = 1;
        const again = r.exec(v.s.i, v.bound, v.choices, [], true);
        if (again !== v.message) throw new Error('a violation did not reproduce: ' + v.message + ' / ' + again);
        trace = r.logs;
      }
    }
    fs.mkdirSync(replayDir, { recursive: true });
    fs.writeFileSync(file, JSON.stringify({ property: prop, suite: v.s.name, variant: v.s.variant, bound: v.bound, message: v.message, choices: v.choices, trace }, null, 1));
    const k = known.find((f) => f.property === prop && f.suite === v.s.name && f.variant === v.s.variant && f.message === v.message && JSON.stringify(f.choices) === JSON.stringify(v.choices));
    console.log(`${prop} ${v.s.variant}/${v.s.name}: ${v.message}`);
    for (const l of trace.slice(-40)) console.log('    ' + l);
    if (k) console.log(`KNOWN-FINDING: property=${prop} ${k.what}`);
    else { console.log(`VIOLATION property=${prop} replay=${file}`); exit = 1; }
  }
  await pool.close();
  const ev = {
    property: prop, tier, seed, level: 'model_checking',
    coverage: {
      states: tot.states, transitions: tot.transitions, traces_validated_against_impl: tot.executions,
      distinct_outcomes: tot.outcomes, fresh_instance_replays_compared: tot.replays,
      exhaustive: complete && !violation,
      rule: 'Every execution runs the real crate, compiled to wasm32, on a virtual host; each is one complete sequence of choices (operations, arguments, host behaviour) within the suite bound, and all sequences within it are run. states: distinct hashed states of model and environment seen; transitions: operations and host steps executed; traces_validated_against_impl: complete executions of the implementation compared with the reference model.',
      suites: rows, samples,
    },
    assumptions: ['single-threaded host event loop; host timers run in order of due time', 'values outside the listed alphabets are not explored'],
    wall_s: (Date.now() - t00) / 1000, violations: exit ? 1 : 0,
  };
  while (JSON.stringify(ev).length > 48000 && ev.coverage.samples.length > 1) ev.coverage.samples.pop();
  fs.mkdirSync(evidenceDir, { recursive: true });
  fs.writeFileSync(path.join(evidenceDir, prop + '.json'), JSON.stringify(ev, null, 1) + '\n');
  if (!exit) console.log(`${prop} ${complete ? 'held on everything explored' : 'held on what was explored (not all of the bound)'}: ${tot.executions} executions, ${tot.transitions} transitions, ${tot.states} states in ${ev.wall_s.toFixed(1)} s`);
  process.exit(exit);
}
main().catch((e) => { console.error('ENGINE ERROR: ' + ((e && e.stack) || e)); process.exit(2); });
