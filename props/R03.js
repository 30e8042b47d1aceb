'use strict'
// Rat text
const G = require('../gen/common')
const X = require('../gen/text')
const { setr, rat } = require('./R01')
const FM = ['d', 'b', 'o', 'x', 'X', 'g', 'Ad', 'Ab', 'Ao', 'Ax', 'AX']
const BAD = ['', ' ', '/', '1/', '/1', '1//2', '1/2/3', '-', '-/1', '1/0', '0/0', '0/5', '0/-5', '-0/5', '-0/-5', '6/4', '-6/4', '6/-4', '-6/-4', ' 6 / 4 ', '6 /4', '6/ 4', '\t-6/4\n', '0x10/0b10', '-0xff/0o17', '0b1000111/0b111111',
  'NaN', 'a/b', '1/a', '12', '-12', '-0', '0', '1.5', '-1.5', '.5', '5.', '-.5', '.', '1.5.2', '1.5/2', '1/2.5', '1.5e3', '1.5E-3', '1.5e+3', '1.5e', '1e5', '0.1', '-0.0', '0.0', '1.0e400', '-1.0e400', '1.0e-400', '1.7976931348623157e308', '4.9406564584124654e-324', '2.4703282292062327e-324', '9007199254740993.0', '36893488147419103232.0', '0x1.8', '+1.5', '+1/2', '1.5 ', '323290.0392038920', '−1/2', '1.٣', 'inf', 'infinity', '1..2', '1_0.5', '0.1e0x']
function part(rng, y) { return (y < 0n ? '-' : '') + X.zeros(rng, X.numeral(rng, y < 0n ? -y : y, rng.pick(['b', 'o', 'd', 'd', 'd', 'x', 'X']))) }
function dec(rng) {
  const ds = (n) => Array.from({ length: n }, () => rng.chance(0.3) ? '0' : rng.below(10)).join('')
  let s = ds(rng.int(0, rng.pick([3, 25]))) + '.' + ds(rng.int(0, rng.pick([4, 30])))
  if (rng.chance(0.4)) s += rng.pick(['e', 'E']) + rng.pick(['', '-', '+']) + rng.below(rng.pick([10, 40, 330]))
  return (rng.chance(0.3) ? '-' : '') + s
}
function trace(rng) {
  const c = []
  for (let i = 0; i < 4; i++) {
    const g = rng.pick([1n, 2n, 12n, 1n << 40n]), p = (rng.chance(0.1) ? 0n : G.zint(rng, rng.int(1, 3))) * g, q = G.zint(rng, rng.int(1, 3)) * g
    let s = rng.chance(0.2) ? part(rng, p) : part(rng, p) + rng.pick(['/', '/', '/', ' /', '/ ']) + part(rng, q)
    if (rng.chance(0.1)) s = ' ' + s + '\n'
    c.push({ op: 'parse', d: rng.below(3), t: G.bytes(s) })
    if (rng.chance(0.5)) c.push({ op: 'parse', d: rng.below(3), t: G.bytes(X.damage(rng, s)) })
  }
  for (let i = 0; i < 4; i++) { const s = dec(rng); c.push({ op: 'parse', d: rng.below(3), t: G.bytes(s) }); if (rng.chance(0.3)) c.push({ op: 'parse', d: 3, t: G.bytes(X.damage(rng, s)) }) }
  c.push(rat(rng, 0, G.textLen))
  for (const f of FM) if (rng.chance(0.5)) c.push({ op: 'fmt', f, a: 0 })
  for (let a = 1; a < 4; a++) c.push({ op: 'fmt', f: rng.pick(FM), a })
  return c
}
function fixed() {
  const out = BAD.map(s => [{ op: 'parse', d: 1, t: G.bytes(s) }, { op: 'fmt', f: 'd', a: 1 }, { op: 'class', a: 1 }])
  for (const [p, q] of [[0n, 1n], [1n, 2n], [-1n, 3n], [-8n, 1n], [255n, -256n], [4294967296n, 7n]]) out.push([setr(0, p, q), ...FM.map(f => ({ op: 'fmt', f, a: 0 }))])
  out.push([{ op: 'setnan', d: 0, k: 0 }, ...FM.map(f => ({ op: 'fmt', f, a: 0 }))])
  return out
}
module.exports = { id: 'R03', machine: 'rat', trace, fixed, count: t => t === 'quick' ? 3000 : 25000 }
