'use strict'
// one worker process: generates traces, runs them on the implementation, validates them
const { Rng } = require('./rng')
const { execTraces } = require('./exec')
const { Validator } = require('./validate')
const crypto = require('crypto')
const fs = require('fs')

process.on('message', job => {
  try { work(job) } catch (e) { process.send({ error: String(e && e.stack || e) }); process.exit(2) }
})
function h(s) { return crypto.createHash('md5').update(s).digest('latin1').slice(0, 8) }

function work({ prop, tier, seed, w, W, deadline, replay, kn, stop }) {
  const P = require('../props/' + prop)
  const part = (P.parts || [P])
  const res = { events: 0, traces: 0, states: 0, viol: [], ops: {}, samples: [], skipped: 0 }
  const distinct = new Set()
  for (const part_ of part) {
    const v = new Validator(part_.spec || part_.machine)
    let all
    if (replay) all = null
    const fixed = part_.fixed ? part_.fixed(tier) : []
    const n = fixed.length + (part_.count ? part_.count(tier) : 0)
    const idx = []
    for (let i = w; i < n; i += W) idx.push(i)
    const BATCH = part_.batch || 40
    for (let k = 0; k < idx.length; k += BATCH) {
      if (Date.now() > deadline) { res.skipped += idx.length - k; break }
      // one worker's fresh violation decides: the others stop at their next batch
      if (res.viol.length >= 3 || fs.existsSync(stop)) break
      const ids = idx.slice(k, k + BATCH)
      const traces = ids.map(i => {
        const cmds = i < fixed.length ? fixed[i]
          : part_.trace(new Rng(BigInt(seed) * 1000003n + BigInt(i) * 7919n + hashNum(prop + (part_.name || ''))), i - fixed.length, tier)
        return [{ op: 'reset' }, ...cmds.map(norm)]
      })
      const evs = execTraces(part_.machine, traces, part_.env)
      evs.forEach((t, j) => {
        res.traces++
        const bad = v.trace(t, e => {
          res.events++
          const key = e.op + '.' + (e.f || '')
          res.ops[key] = (res.ops[key] || 0) + 1
          if (e.op !== 'reset') distinct.add(h(JSON.stringify(e)))
        })
        if (res.samples.length < 2 && t.length > 1 && t.length < 12 && JSON.stringify(t).length < 3000) res.samples.push(t)
        if (bad && !kn.some(m => JSON.stringify(t[bad.index]).includes(m))) fs.writeFileSync(stop, '')
        if (bad) res.viol.push({ trace: ids[j], machine: part_.machine, spec: part_.spec || part_.machine, env: part_.env, events: t.slice(0, bad.index + 1), ...bad })
      })
    }
  }
  res.states = distinct.size
  process.send({ done: res }, () => process.exit(0))
}
function hashNum(s) { return BigInt('0x' + crypto.createHash('md5').update(s).digest('hex').slice(0, 12)) }

function norm(c) {
  const o = {}
  for (const k in c) o[k] = typeof c[k] === 'bigint' ? c[k].toString() : Array.isArray(c[k]) ? c[k].map(x => typeof x === 'bigint' ? x.toString() : x) : c[k]
  return o
}
