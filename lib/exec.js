'use strict'
// feeds command lines to the executor (the harness linked with the real crate) and reads events
const { spawnSync } = require('child_process')
const fs = require('fs')
const path = require('path')
const BIN = path.join(__dirname, '..', 'build', 'target', 'release', 'rmath-exec')

function hexBytes(t) { return t.map(b => Number(b).toString(16).padStart(2, '0')).join('') }
function line(c) {
  let s = c.op
  for (const k of ['f', 'd', 'a', 'b', 'c', 'k', 'n', 'm']) if (c[k] !== undefined && c[k] !== '') s += ` ${k}=${c[k]}`
  if (c.t) s += ' t=' + hexBytes(c.t)
  if (c.s) s += ' s=' + c.s.join(',')
  return s
}
class ExecError extends Error {}

// traces: array of command arrays.  Returns, per trace, the events (commands with observations).
// A trace stops early when its executor dies; the fatal event has st `hang` or `crash`.
function execTraces(machine, traces, env) {
  const out = []
  let i = 0, deaths = 0
  while (i < traces.length) {
    const rest = traces.slice(i)
    const input = rest.map(t => t.map(line).join('\n')).join('\n') + '\n'
    const p = spawnSync('bash', ['-c', 'ulimit -v 8000000; exec "$0" "$@"', BIN, machine], { input, maxBuffer: 1 << 30, env: { ...process.env, ...(env || {}) } })
    if (p.error && !p.stdout) throw new ExecError(String(p.error))
    if (p.status === 2) throw new ExecError('executor: ' + p.stderr.toString().slice(0, 500))
    const lines = p.stdout.toString().split('\n')
    lines.pop()
    let k = 0
    let dead = false
    for (const t of rest) {
      const evs = []
      for (const c of t) {
        if (k < lines.length) {
          let o
          try { o = JSON.parse(lines[k]) } catch (e) { throw new ExecError('bad executor output ' + lines[k].slice(0, 200)) }
          k++
          if (o.obs === 'panic') { o.st = 'crash'; o.obs = [] }
          evs.push({ ...c, ...o })
          if (o.st === 'hang') { dead = true; break }
        } else {
          evs.push({ ...c, st: 'crash', r: [], rt: '', obs: [], sig: p.signal || p.status })
          dead = true
          break
        }
      }
      out.push(evs)
      i++
      if (dead) break
    }
    // each death costs a CPU budget: one is enough to decide, the remaining traces are not run
    if (dead && ++deaths >= 1) break
  }
  return out
}
module.exports = { execTraces, ExecError, line, BIN }
