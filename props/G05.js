'use strict'
const M = require('../lib/model')
// the iterator's error latch over any source; hardware sources deliver full-width words
const W = [0, 1, 7, 4294967295, -1, -1]
function trace(rng) {
  return Array.from({ length: 8 }, () => ({ op: 'latch', s: Array.from({ length: rng.below(7) }, () => rng.pick(W)), t: Array.from({ length: rng.int(1, 14) }, () => rng.wpick([[6, 0], [2, 1], [2, 2], [1, 3]])) }))
}
function fixed() {
  const out = []
  // every action sequence of length 5 over every script of length 3 (values / errors)
  for (let m = 0; m < 8; m++) { const c = []
    for (let a = 0; a < 1024; a++) c.push({ op: 'latch', s: [0, 1, 2].map(i => (m >> i) & 1 ? -1 : i + 10), t: [0, 1, 2, 3, 4].map(i => (a >> (2 * i)) & 3) })
    out.push(c) }
  const hasHw = /\brdrand\b/.test(flags) && /\brdseed\b/.test(flags)
  if (hasHw) for (let m = 0; m < 3; m++) out.push(['u32', 'u64', 'usize'].map(f => ({ op: 'hw', f, m, n: 256 })))
  return out
}
let flags = ''
try { flags = require('fs').readFileSync('/proc/cpuinfo', 'utf8') } catch (e) { }
module.exports = { id: 'G05', machine: 'rand', trace, fixed, count: t => t === 'quick' ? 6000 : 40000,
  model: () => M.tlc('latch', 300) }
