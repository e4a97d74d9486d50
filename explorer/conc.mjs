// C22: explores all the schedules, within a preemption bound, of small multi-threaded programs
// that use the real timer code (see conc/). Usage: conc.mjs PROP TIER BINDIR EVIDENCE REPLAYS KNOWN
import { spawn, spawnSync } from 'node:child_process';
import fs from 'node:fs';
import path from 'node:path';
import os from 'node:os';

const [prop, tier, binDir, evidenceDir, replayDir, knownFile] = process.argv.slice(2);
const t00 = Date.now();
const seed = Number(process.env.VERIF_SEED || 1);
const NW = Number(process.env.VERIF_WORKERS || os.cpus().length);
const budget = Number(process.env.VERIF_BUDGET_S || (tier === 'thorough' ? 840 : 600));
const deadline = t00 + budget * 1000;
const known = JSON.parse(fs.readFileSync(knownFile, 'utf8')).findings;
const only = process.env.VERIF_SUITE;
const bin = (v) => path.join(binDir, v, 'release', 'checker');

const jobs = [];
for (const v of ['prod', 'testutil']) {
  const r = spawnSync(bin(v), ['list', tier], { encoding: 'utf8' });
  if (r.status !== 0) { console.error('ENGINE ERROR: ' + r.stderr); process.exit(2); }
  for (const l of r.stdout.trim().split('\n')) {
    const [name, bound] = l.split(' ');
    if (!only || name.includes(only)) jobs.push({ v, name, bound: Number(bound) });
  }
}
const rows = {}, failures = [];
const tot = { executions: 0, steps: 0, nodes: 0, outcomes: 0 };
let skipped = 0, next = 0;
// the big ones first; the seed only rotates the order
jobs.sort((a, b) => (b.name.split('/').length - a.name.split('/').length) || (b.bound - a.bound));
const rot = jobs.length ? seed % jobs.length : 0;
const order = [...jobs.slice(rot), ...jobs.slice(0, rot)];

function worker(v) {
  const p = spawn(bin(v), ['worker'], { stdio: ['pipe', 'pipe', 'pipe'] });
  let buf = '', waiting = null, err = '';
  p.stdin.on('error', () => {});
  p.stderr.on('data', (d) => { err = (err + d).slice(-2000); });
  p.stdout.on('data', (d) => { buf += d; let k; while ((k = buf.indexOf('\n')) >= 0) { const l = buf.slice(0, k); buf = buf.slice(k + 1); const w = waiting; waiting = null; w && w(JSON.parse(l)); } });
  p.on('exit', (c, s) => { dead = true; const w = waiting; waiting = null; w && w({ crashed: `${s || c} ${err}` }); });
  let dead = false;
  return { get dead() { return dead; }, run: (l) => new Promise((res) => { waiting = res; p.stdin.write(l + '\n'); }), end: () => p.stdin.end(), kill: () => p.kill('SIGKILL') };
}
async function lane() {
  const ws = {};
  while (next < order.length && failures.length === 0) {
    const j = order[next++];
    if (Date.now() > deadline) { skipped++; continue; }
    if (!ws[j.v] || ws[j.v].dead) ws[j.v] = worker(j.v);
    const cut = setTimeout(() => { j.late = true; ws[j.v].kill(); }, Math.max(1000, deadline + 20000 - Date.now()));
    const r = await ws[j.v].run(`${j.name} ${j.bound} 4000000000`);
    clearTimeout(cut);
    if (r.crashed) {
      if (j.late) { skipped++; continue; }
      failures.push({ j, crash: true, message: 'the process died: ' + r.crashed, path: [] });
      continue;
    }
    const [mode, host, ...threads] = j.name.split('/');
    const k = `${j.v}/${mode}/${host}/${threads.length} threads`;
    const row = rows[k] ||= { suite: k, bound: 0, bound_unit: 'preemptions', scenarios: 0, executions: 0, steps: 0, schedule_prefixes: 0, outcomes: 0, longest_choice_sequence: 0 };
    row.bound = row.bound ? Math.min(row.bound, j.bound) : j.bound;
    row.scenarios++; row.executions += r.executions; row.steps += r.steps; row.schedule_prefixes += r.nodes; row.outcomes += r.outcomes || 0;
    row.longest_choice_sequence = Math.max(row.longest_choice_sequence, r.deepest || 0);
    tot.executions += r.executions; tot.steps += r.steps; tot.nodes += r.nodes; tot.outcomes += r.outcomes || 0;
    if (r.failure) failures.push({ j, message: r.failure, path: r.path });
  }
  for (const w of Object.values(ws)) w.end();
}

const clean = (m) => m.replace(/0x[0-9a-f]+/g, '0x..');
function replay(j, p) {
  const r = spawnSync(bin(j.v), ['replay', j.name, String(j.bound), p.join(',')], { encoding: 'utf8', maxBuffer: 1 << 28, timeout: 60000 });
  const lines = (r.stdout || '').trim().split('\n');
  const last = lines.pop() || '';
  return { trace: lines, failure: last.startsWith('FAILURE ') ? last.slice(8) : last === 'OK' ? null : 'the process died' };
}

async function main() {
  await Promise.all(Array.from({ length: NW }, lane));
  let exit = 0, reported = null;
  if (failures.length) {
    const f = failures[0];
    let trace = [];
    if (!f.crash) {
      for (let k = 0; k < 2; k++) {
        const r = replay(f.j, f.path);
        if (r.failure === null || clean(r.failure) !== clean(f.message)) throw new Error(`a violation did not reproduce: ${f.j.name} ${f.message} / ${r.failure}`);
        trace = r.trace;
      }
    }
    fs.mkdirSync(replayDir, { recursive: true });
    const file = path.join(replayDir, `${prop}-${f.j.v}.json`);
    fs.writeFileSync(file, JSON.stringify({ property: prop, variant: f.j.v, scenario: f.j.name, bound: f.j.bound, message: f.message, choices: f.path, command: `${bin(f.j.v)} replay '${f.j.name}' ${f.j.bound} ${f.path.join(',')}`, trace }, null, 1));
    console.log(`${prop} ${f.j.v} ${f.j.name}: ${f.message}`);
    for (const l of trace.slice(-60)) console.log('    ' + l);
    const k = known.find((x) => x.property === prop && x.scenario === f.j.name && clean(x.message) === clean(f.message));
    if (k) console.log(`KNOWN-FINDING: property=${prop} ${k.what}`);
    else { console.log(`VIOLATION property=${prop} replay=${file}`); exit = 1; }
    reported = f.message;
  }
  const samples = [];
  if (!failures.length) {
    for (const j of [order[0], order[order.length >> 1]]) {
      // the uninterrupted schedule, and one where the first choice is taken otherwise
      for (const p of [[], [1]]) samples.push({ scenario: j.name, build: j.v, choices: p, trace: replay(j, p).trace.slice(0, 40) });
    }
  }
  const exhaustive = skipped === 0 && !failures.length;
  const ev = {
    property: prop, tier, seed, level: 'model_checking',
    coverage: {
      states: tot.nodes, transitions: tot.steps, traces_validated_against_impl: tot.executions,
      distinct_outcomes: tot.outcomes, scenarios: Object.values(rows).reduce((a, r) => a + r.scenarios, 0), scenarios_skipped: skipped, exhaustive,
      rule: 'Each scenario is a program of two or three threads over the real, unmodified timer sources, linked against scheduled stand-ins for locks, atomics and Arc. All the schedules with at most `bound` preemptions are executed, each followed by a sequential phase on a punctual host that checks completion, wake-ups and memory. states: schedule prefixes (nodes of the tree of scheduling choices); transitions: shared-memory and host operations executed; traces_validated_against_impl: complete executions of the implementation.',
      suites: Object.values(rows), samples,
    },
    assumptions: ['sequentially consistent memory (WebAssembly atomics are)', 'each operation of an AtomicWaker is atomic', 'programs longer than those listed, and schedules with more preemptions, are not covered'],
    wall_s: (Date.now() - t00) / 1000, violations: exit,
  };
  fs.mkdirSync(evidenceDir, { recursive: true });
  fs.writeFileSync(path.join(evidenceDir, prop + '.json'), JSON.stringify(ev, null, 1) + '\n');
  for (const r of Object.values(rows)) console.log(`${prop} ${r.suite}: ${r.scenarios} scenarios, bound ${r.bound}, ${r.executions} executions, ${r.steps} steps, ${r.outcomes} outcomes`);
  if (!exit) console.log(`${prop} ${exhaustive ? 'held on everything explored' : reported ? 'known finding only' : 'held on what was explored (not all of the bound)'}: ${tot.executions} executions in ${ev.wall_s.toFixed(1)} s`);
  process.exit(exit);
}
main().catch((e) => { console.error('ENGINE ERROR: ' + ((e && e.stack) || e)); process.exit(2); });
