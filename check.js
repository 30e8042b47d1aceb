#!/usr/bin/env node
'use strict'
// usage: check.js <property>            (VERIF_SEED, VERIF_TIER from the environment)
//        check.js --replay <file>       re-runs a recorded violation
//        check.js --build               builds the executor only
const { fork, spawnSync } = require('child_process')
const fs = require('fs')
const path = require('path')
const os = require('os')

function build() {
  const env = { ...process.env, RUSTUP_TOOLCHAIN: 'stable', CARGO_NET_OFFLINE: 'true', CARGO_TARGET_DIR: path.join(__dirname, 'build', 'target') }
  env.RUSTFLAGS = '--cfg rmath_verif -Awarnings'
  const cargo = () => spawnSync('cargo', ['build', '--offline', '--release', '-q'], { cwd: path.join(__dirname, 'harness'), env, encoding: 'utf8' })
  let p = cargo()
  // the hook may name fields that were renamed since: the executor can do without it
  if (p.status !== 0) {
    env.RUSTFLAGS = '-Awarnings'
    const q = cargo()
    if (q.status === 0) p = q
  }
  if (p.status !== 0) {
    console.error('BUILD FAILED\n' + (p.stderr || p.error))
    process.exit(2)
  }
}

function known(prop) {
  const f = path.join(__dirname, 'known-findings.txt')
  if (!fs.existsSync(f)) return []
  return fs.readFileSync(f, 'utf8').split('\n').filter(x => x.startsWith('{')).map(x => JSON.parse(x))
    .filter(x => x.property === prop && x.status === 'known')
}

async function main() {
  const arg = process.argv[2]
  build()
  if (arg === '--build') return 0
  if (arg === '--replay') return require('./lib/replay')(process.argv[3])
  const prop = arg
  const tier = process.env.VERIF_TIER === 'thorough' || process.argv[3] === 'thorough' ? 'thorough' : 'quick'
  const seed = parseInt(process.env.VERIF_SEED || '1', 10)
  const t0 = Date.now()
  const P = require('./props/' + prop)
  const W = Math.max(2, Math.min(8, os.cpus().length))
  const deadline = t0 + (tier === 'quick' ? 420 : 3000) * 1000
  const kn = known(prop)
  const scratch = fs.mkdtempSync(path.join(os.tmpdir(), 'rmath-check-'))
  const stop = path.join(scratch, 'stop')
  const ps = []
  for (let w = 0; w < W; w++) {
    ps.push(new Promise((ok, bad) => {
      const c = fork(path.join(__dirname, 'lib', 'worker.js'), [], { stdio: ['ignore', 'inherit', 'inherit', 'ipc'], execArgv: ['--max-old-space-size=3000', '--stack-size=4000'] })
      let done = false
      c.on('message', m => { done = true; m.error ? bad(new Error(m.error)) : ok(m.done) })
      c.on('exit', (code, sig) => { if (!done) bad(new Error('worker died ' + code + ' ' + sig)) })
      c.send({ prop, tier, seed, w, W, deadline, stop, kn: kn.map(x => x.match) })
    }))
  }
  const parts = await Promise.all(ps)
  fs.rmSync(scratch, { recursive: true, force: true })
  const tot = { events: 0, traces: 0, states: 0, viol: [], ops: {}, samples: [], skipped: 0 }
  for (const r of parts) {
    tot.events += r.events; tot.traces += r.traces; tot.states += r.states; tot.skipped += r.skipped
    tot.viol.push(...r.viol); tot.samples.push(...r.samples)
    for (const k in r.ops) tot.ops[k] = (tot.ops[k] || 0) + r.ops[k]
  }
  let extra = {}
  if (P.model && tot.viol.length === 0) {
    extra = P.model(tier, seed, deadline)
    if (extra.viol) { tot.viol.push(...extra.viol); delete extra.viol }
    tot.events += extra.replayed_events || 0
    tot.traces += extra.replayed_traces || 0
  }
  if (tier === 'thorough') extra = { ...extra, ...require('./lib/model').laws() }
  const fresh = []
  const hit = new Set()
  for (const v of tot.viol) {
    const key = JSON.stringify(v.events[v.index])
    const m = kn.find(x => key.includes(x.match))
    if (m) hit.add(m.what); else fresh.push(v)
  }
  for (const x of kn) console.log(`KNOWN-FINDING: property=${prop} ${x.what}`)
  fs.mkdirSync(path.join(__dirname, 'evidence'), { recursive: true })
  const wall = (Date.now() - t0) / 1000
  const samples = tot.samples.sort((a, b) => a.length - b.length).slice(0, 3)
  const evd = {
    property: prop, tier, seed, level: 'model_checking',
    coverage: {
      states: tot.states, transitions: tot.events, traces_validated_against_impl: tot.traces,
      skipped_for_time: tot.skipped, events_by_operation: tot.ops, ...extra,
      samples: samples.length ? samples : [{ note: 'no short trace' }],
    },
    assumptions: P.assumptions || ['Quint 0.32 parser and TypeScript evaluator', 'rustc; the executor reports limbs read through AsRef'],
    wall_s: wall, violations: fresh.length,
  }
  fs.writeFileSync(path.join(__dirname, 'evidence', prop + '.json'), JSON.stringify(evd, (_, x) => typeof x === 'bigint' ? x.toString() : x, 1))
  console.log(`${prop} ${tier} seed=${seed}: ${tot.traces} traces, ${tot.events} events admitted, ${tot.states} distinct, ${tot.skipped} skipped, ${wall.toFixed(1)} s`)
  if (tot.events === 0 && fresh.length === 0) { console.error('nothing was checked'); return 2 }
  if (fresh.length) {
    const dir = path.join(__dirname, 'build', 'replay')
    fs.mkdirSync(dir, { recursive: true })
    fresh.slice(0, 3).forEach((v, i) => {
      const f = path.join(dir, `${prop}-${seed}-${v.trace}-${i}.json`)
      fs.writeFileSync(f, JSON.stringify({ property: prop, ...v }, (_, x) => typeof x === 'bigint' ? x.toString() : x, 1))
      const e = v.events[v.index]
      console.log(`  ${v.why}: ${JSON.stringify(e, (_, x) => typeof x === 'bigint' ? x.toString() : x).slice(0, 400)}`)
      if (v.wanted) console.log('  wanted: ' + JSON.stringify(v.wanted).slice(0, 300))
      console.log(`VIOLATION property=${prop} replay=${f}`)
    })
    return 1
  }
  return 0
}
main().then(c => process.exit(c), e => { console.error(e); process.exit(2) })
