'use strict'
// design-level runs of the specification itself: TLC on the compiled sharing model, and
// model-generated histories (quint run --mbt) replayed on the implementation
const { spawnSync } = require('child_process')
const fs = require('fs')
const path = require('path')
const { execTraces } = require('./exec')
const ROOT = path.join(__dirname, '..')

// exhaustive TLC run of spec/tla/<name>.tla (generated from Quint by spec/tla/gen.sh)
function tlc(name, timeoutS) {
  const dir = fs.mkdtempSync(path.join(ROOT, 'build', 'tlc-'))
  try {
    for (const f of fs.readdirSync(path.join(ROOT, 'spec', 'tla'))) if (/\.(tla|cfg)$/.test(f)) fs.copyFileSync(path.join(ROOT, 'spec', 'tla', f), path.join(dir, f))
    const p = spawnSync('tlc', ['-workers', '8', '-config', name + '.cfg', name + '.tla'], { cwd: dir, encoding: 'utf8', timeout: timeoutS * 1000, maxBuffer: 1 << 26 })
    const m = /(\d+) states generated, (\d+) distinct states found, 0 states left/.exec(p.stdout || '')
    if (!m || !/No error has been found/.test(p.stdout)) throw new Error('TLC on ' + name + ': ' + (p.stdout || '').slice(-1500) + p.stderr)
    return { model_states: +m[2], model_transitions: +m[1] }
  } finally { fs.rmSync(dir, { recursive: true, force: true }) }
}

// the oracle's own laws, over whole small domains (independent of the implementation)
function laws() {
  const p = spawnSync('quint', ['test', '--main', 'laws', path.join(ROOT, 'spec', 'laws.qnt')], { encoding: 'utf8', maxBuffer: 1 << 26 })
  const m = /(\d+) passing/.exec(p.stdout || '')
  if (p.status !== 0 || !m) throw new Error('laws of the specification: ' + p.stdout + p.stderr)
  return { specification_laws_checked: +m[1] }
}

const itf = x => x && typeof x === 'object' && '#bigint' in x ? BigInt(x['#bigint']) : Array.isArray(x) ? x.map(itf) : x && typeof x === 'object' ? Object.fromEntries(Object.entries(x).filter(([k]) => !k.startsWith('#meta')).map(([k, v]) => [k, itf(v)])) : x

// random histories produced by the specification's own `step`, replayed step by step;
// project(state) gives the observation the specification predicts for every handle
function mbt(machine, main, seed, samples, steps, project, toCmd, opt) {
  const dir = fs.mkdtempSync(path.join(ROOT, 'build', 'mbt-'))
  try {
    const p = spawnSync('quint', ['run', '--main', main, '--max-samples', String(samples), '--n-traces', String(samples), '--max-steps', String(steps),
      '--seed', '0x' + (seed * 7919 + 13).toString(16), '--out-itf', path.join(dir, 't{seq}.itf.json'), path.join(ROOT, 'spec', machine + '.qnt')],
      { encoding: 'utf8', maxBuffer: 1 << 26 })
    if (p.status !== 0) throw new Error('quint run: ' + p.stdout + p.stderr)
    const traces = [], expect = [], wantR = []
    for (const f of fs.readdirSync(dir).sort()) {
      const j = JSON.parse(fs.readFileSync(path.join(dir, f), 'utf8'))
      const st = j.states.map(itf)
      traces.push(st.map((s, i) => i === 0 ? { op: 'reset' } : toCmd(s)))
      expect.push(st.map(project))
      if (opt && opt.wantR) wantR.push(st.map(opt.wantR))
    }
    if (!traces.length) throw new Error('quint run produced no trace')
    const evs = execTraces(opt && opt.exec || machine, traces)
    const viol = []
    const view = opt && opt.view || (x => x)
    let n = 0
    evs.forEach((t, i) => {
      for (let k = 0; k < t.length; k++) {
        n++
        const w = expect[i][k] // a null entry is a handle the specification says nothing about
        const same = t[k].st === 'ok' && w.length === t[k].obs.length && w.every((x, h) => { if (x === null) return true; const y = view(t[k].obs[h].map(norm)); return x.length === y.length && x.every((v, i) => v === null || v === y[i]) }) && (!wantR.length || k === 0 || JSON.stringify(wantR[i][k].map(String)) === JSON.stringify(t[k].r))
        if (!same) { viol.push({ trace: 'mbt' + i, machine: opt && opt.exec || machine, spec: machine, events: t.slice(0, k + 1), index: k, why: 'a history of the specification is not reproduced', wanted: expect[i][k] }); break }
      }
    })
    return { replayed_traces: evs.length, replayed_events: n, viol: viol.slice(0, 3) }
  } finally { fs.rmSync(dir, { recursive: true, force: true }) }
}
const norm = x => (x.startsWith('x') ? BigInt('0' + x) : BigInt(x)).toString()
const limbs = v => v === 0n ? 1 : Math.ceil(v.toString(2).length / 32)
const natObs = s => s.env === undefined ? null : s.env.map(c => { const x = s.heap[Number(c)]; return x.nan ? ['0', '0'] : [String(limbs(x.v)), x.v.toString()] })
const intObs = s => s.st.env.map((c, h) => { const x = s.st.heap[Number(c)]; return x.nan ? ['0', '0', '9'] : x.v === 0n && s.neg[h] ? null : [String(limbs(x.v)), x.v.toString(), x.v === 0n ? '0' : s.neg[h] ? '-1' : '1'] })
const ratObs = s => s.map(x => x.nan ? null : ['0', String(limbs(x.p < 0n ? -x.p : x.p)), (x.p < 0n ? -x.p : x.p).toString(), x.p < 0n ? '-1' : x.p > 0n ? '1' : '0', String(limbs(x.q)), x.q.toString(), '1'])
// Float handles compare by [form, neg, odd mantissa, exponent, prec, mode, acc]
const oddOf = m => { m = BigInt(m); if (m) while (!(m & 1n)) m >>= 1n; return m.toString() }
const floatView = o => o[0] === '3' ? ['3', '', '', '', '', '', ''] : [o[0], o[1], oddOf(o[3]), o[4], o[5], o[6], o[7]]
const floatObs = s => s.map(x => x.form === 'nan' ? ['3', '', '', '', '', '', '']
  : [{ zero: '0', finite: '1', inf: '2' }[x.form], x.neg ? '1' : '0', x.m.toString(), x.form === 'finite' ? (x.k + BigInt(x.m.toString(2).length)).toString() : '0', x.prec.toString(), x.mode.toString(), x.acc === 9n ? null : x.acc.toString()])
// Rand handles: only whether there is a generator (the spec's `draw` is not evaluated here; the drawn values are compared through wantR)
const randView = o => [o[0]]
const randObs = s => s.map(x => [x.kind === 'none' ? '0' : '1'])
const evCmd = e => { const o = {}; for (const k of ['op', 'f', 'd', 'a', 'b', 'c', 'k', 'n', 'm']) o[k] = typeof e[k] === 'bigint' ? e[k].toString() : e[k]; o.t = e.t.map(Number); o.s = e.s.map(String); return o }
module.exports = { laws, tlc, mbt, natObs, intObs, ratObs, floatObs, floatView, randObs, randView, evCmd, itf }
