'use strict'
// sharing: clone / deep_clone / out-of-place / op-assign, also with aliased operands
const G = require('../gen/common')
const M = require('../lib/model')
const F2 = ['add', 'sub', 'mul', 'div', 'rem', 'and', 'or', 'xor', 'andnot', 'subs']
function trace(rng) {
  const c = []
  for (let d = 0; d < 4; d++) c.push(G.setv(d, rng.chance(0.1) ? 0n : G.nat(rng, G.smallLen(rng))))
  for (let i = 0; i < 30; i++) {
    const d = rng.below(4), a = rng.below(4), b = rng.chance(0.3) ? a : rng.below(4)
    c.push(rng.wpick([
      [6, { op: 'clone', d, a }],
      [2, { op: 'deep', d, a }],
      [5, { op: 'o2', f: rng.pick(F2.concat(['mulk'])), d, a, b }],
      [7, { op: 'a2', f: rng.pick(F2), d, b }],
      [2, { op: 'ou', f: rng.pick(['add', 'sub', 'mul', 'shl', 'shr']), d, a, k: rng.below(100) }],
      [4, { op: 'au', f: rng.pick(['add', 'sub', 'mul', 'shl', 'shr', 'div', 'rem']), d, k: 1 + rng.below(100) }],
      [2, { op: 'o1', f: rng.pick(['not', 'sqr', 'sqrt']), d, a }],
      [1, { op: 'q1', f: rng.pick(['bits', 'le', 'be', 'tz']), a }],
      [1, { op: 'fmt', f: rng.pick(['d', 'o', 'x', 'b']), a }],
      [1, { op: 'cmp', a, b }],
      [2, G.setv(d, G.nat(rng, rng.int(1, 3)))],
      [1, { op: 'parse', d, t: G.bytes('12345678901234567890123') }]]))
    if (rng.chance(0.06)) c.push(G.setv(a, BigInt(rng.below(9))), G.setv(b, BigInt(rng.below(5))), { op: 'o3', f: rng.pick(['exp', 'powmod']), d, a, b, c: rng.below(4) }, { op: 'o2', f: 'pow', d, a, b })
    // powers that return an operand unchanged
    if (rng.chance(0.06)) { const k = rng.below(4); c.push(G.setv(b, BigInt(rng.wpick([[4, 1], [1, 0], [1, 2]]))), { op: 'o3', f: rng.pick(['exp', 'powmod']), d, a, b, c: rng.below(4) }, { op: 'a2', f: rng.pick(['add', 'sub', 'mul', 'and', 'xor']), d: rng.chance(0.5) ? d : a, b: k }) }
    if (i % 6 === 5) c.push(G.setv(rng.below(4), G.nat(rng, rng.int(1, 3)))) // keeps sizes bounded
  }
  return c
}
// op-assign and out-of-place with every aliasing pattern of (destination, operand), every operator
function fixed() {
  const out = []
  for (const f of F2) for (const v of [1n, 5n, 0xffffffffn, (1n << 64n) + 7n, (1n << 96n) - 1n, 0n]) {
    if (v === 0n && (f === 'div' || f === 'rem')) continue
    out.push([G.setv(0, v), { op: 'clone', d: 1, a: 0 }, { op: 'clone', d: 2, a: 1 }, { op: 'deep', d: 3, a: 0 }, { op: 'o2', f, d: 3, a: 0, b: 1 }, { op: 'deep', d: 3, a: 0 }, { op: 'a2', f, d: 0, b: 1 }])
    out.push([G.setv(0, v), { op: 'clone', d: 1, a: 0 }, { op: 'a2', f, d: 0, b: 0 }])
    out.push([G.setv(0, v), { op: 'o2', f, d: 0, a: 0, b: 0 }])
    out.push([G.setv(0, v), { op: 'clone', d: 1, a: 0 }, { op: 'deep', d: 2, a: 0 }, { op: 'a2', f, d: 0, b: 2 }])
  }
  // an operation whose result equals an operand, and then an update of one of them in place
  for (const v of [1n, 7n, 0xffffffffn, (1n << 64n) + 5n, (1n << 160n) - 3n]) for (const [d, b] of [[3, 3], [3, 0], [0, 3]]) {
    const same = [['o3 exp', 1n, v * 2n + 1n], ['o3 powmod', 1n, v * 2n + 1n], ['o3 exp', 1n, v * 2n], ['o3 powmod', 1n, v * 2n + 2n], ['o2 pow', 1n], ['o2 mul', 1n], ['o2 mulk', 1n], ['o2 div', 1n], ['o2 add', 0n], ['o2 sub', 0n], ['o2 or', 0n], ['o2 xor', 0n], ['o2 andnot', 0n], ['o2 subs', 0n], ['o2 rem', v + 1n], ['o2 and', (1n << 192n) - 1n]]
    for (const [o, k, n] of same) for (const up of ['add', 'mul', 'xor', 'sub']) {
      const c = [G.setv(0, v), G.setv(1, k), G.setv(2, n || 3n)]
      const [op, f] = o.split(' ')
      c.push(op === 'o3' ? { op, f, d: 3, a: 0, b: 1, c: 2 } : { op, f, d: 3, a: 0, b: 1 }, { op: 'clone', d: 1, a: 3 }, { op: 'deep', d: 2, a: 3 }, up === 'sub' ? { op: 'au', f: 'sub', d, k: 1 } : { op: 'a2', f: up, d, b: 2 }, { op: 'au', f: 'shl', d: b, k: 3 })
      out.push(c)
    }
    for (const f of ['add', 'sub', 'shl', 'shr']) for (const g of ['add', 'shl', 'mul']) out.push([G.setv(0, v), { op: 'ou', f, d: 3, a: 0, k: 0 }, { op: 'au', f: g, d, k: 3 }])
    out.push([G.setv(0, v), { op: 'ou', f: 'mul', d: 3, a: 0, k: 1 }, { op: 'au', f: 'mul', d, k: 3 }])
  }
  return out
}
module.exports = {
  id: 'N09', machine: 'nat', trace, fixed, count: t => t === 'quick' ? 5000 : 40000,
  model(tier, seed) {
    const a = M.tlc('sharing', 400)
    const b = M.mbt('nat', 'nat', seed, tier === 'quick' ? 300 : 3000, 30, s => M.natObs(s.sys), s => M.evCmd(s.ev))
    return { ...a, ...b }
  },
}
