'use strict'
// BigInt sharing: clone shares the magnitude, results are private, aliased operands
const G = require('../gen/common')
const M = require('../lib/model')
const F2 = ['add', 'sub', 'mul', 'div', 'rem', 'reme', 'dive', 'and', 'or', 'xor', 'andnot']
function trace(rng) {
  const c = []
  for (let d = 0; d < 4; d++) c.push(G.setz(d, rng.chance(0.1) ? 0n : G.zint(rng, G.textLen(rng))))
  for (let i = 0; i < 30; i++) {
    const d = rng.below(4), a = rng.below(4), b = rng.chance(0.3) ? a : rng.below(4)
    c.push(rng.wpick([
      [6, { op: 'clone', d, a }], [2, { op: 'deep', d, a }],
      [5, { op: 'o2', f: rng.pick(F2), d, a, b }],
      [7, { op: 'a2', f: rng.pick(F2), d, b }],
      [2, { op: 'ou', f: rng.pick(['shl', 'shr']), d, a, k: rng.below(100) }],
      [2, { op: 'au', f: rng.pick(['shl', 'shr']), d, k: rng.below(100) }],
      [2, { op: 'o1', f: rng.pick(['not', 'neg', 'abs', 'sqr', 'sqrt', 'ofmag']), d, a }],
      [2, { op: rng.pick(['setneg', 'setnat']), d }],
      [1, { op: 'gcd', d, a, b }],
      [1, { op: 'cmp', a, b }], [1, { op: 'fmt', f: 'd', a }],
      [3, G.setz(d, G.zint(rng, rng.int(1, 3)))]]))
    if (i % 6 === 5) c.push(G.setz(rng.below(4), G.zint(rng, rng.int(1, 3))))
    if (rng.chance(0.05)) c.push(G.setz(b, BigInt(rng.int(-3, 5))), G.setz(3, 1000003n), { op: 'o3', d, a, b, c: 3 }, { op: 'o2', f: 'modinv', d: a, a: b, b: 3 })
  }
  return c
}
function fixed() {
  const out = []
  for (const f of F2) for (const v of [1n, -1n, 5n, -6n, 0xffffffffn, -(1n << 64n) - 7n, (1n << 96n) - 1n, 0n]) {
    if (v === 0n && ['div', 'rem', 'reme', 'dive'].includes(f)) continue
    out.push([G.setz(0, v), { op: 'clone', d: 1, a: 0 }, { op: 'o2', f, d: 3, a: 0, b: 1 }, { op: 'deep', d: 2, a: 0 }, { op: 'a2', f, d: 0, b: 1 }])
    out.push([G.setz(0, v), { op: 'a2', f, d: 0, b: 0 }])
    out.push([G.setz(0, v), { op: 'o2', f, d: 0, a: 0, b: 0 }])
    // same storage, opposite signs
    for (const s of ['setneg', 'setnat']) out.push([G.setz(0, v), { op: 'clone', d: 1, a: 0 }, { op: s, d: 1 }, { op: 'o2', f, d: 2, a: 0, b: 1 }, { op: 'o2', f, d: 3, a: 1, b: 0 }, { op: 'a2', f, d: 0, b: 1 }],
      [G.setz(0, v), { op: 'clone', d: 1, a: 0 }, { op: s, d: 1 }, { op: 'a2', f, d: 1, b: 0 }])
  }
  // an operation whose result equals an operand, and then an update of one of them in place
  for (const v of [1n, 7n, -7n, -0xffffffffn, (1n << 64n) + 5n, 3n - (1n << 160n)]) for (const d of [3, 0]) {
    const m = v < 0n ? -v : v
    const same = [['o3', '', 1n, m * 2n + 1n], ['o3', '', 1n, m * 2n], ['o2', 'div', 1n], ['o2', 'dive', 1n], ['o2', 'mul', 1n], ['o2', 'mul', -1n], ['o2', 'add', 0n], ['o2', 'sub', 0n], ['o2', 'or', 0n], ['o2', 'xor', 0n], ['o2', 'andnot', 0n], ['o2', 'and', -1n], ['o2', 'rem', m + 1n], ['o2', 'reme', m + 1n], ['gcd', '', 0n], ['gcd', '', v]]
    for (const [op, f, k, n] of same) for (const up of ['add', 'mul', 'xor']) {
      const c = [G.setz(0, v), G.setz(1, k), G.setz(2, n || 3n)]
      c.push(op === 'o3' ? { op, d: 3, a: 0, b: 1, c: 2 } : op === 'gcd' ? { op, d: 3, a: 0, b: 1 } : { op, f, d: 3, a: 0, b: 1 }, { op: 'deep', d: 2, a: 3 }, { op: 'a2', f: up, d, b: 2 }, { op: 'au', f: 'shl', d: 3 - d, k: 3 })
      out.push(c)
    }
    for (const f of ['shl', 'shr']) out.push([G.setz(0, v), { op: 'ou', f, d: 3, a: 0, k: 0 }, { op: 'au', f: 'shl', d, k: 3 }])
    for (const f of ['abs', 'neg', 'ofmag']) out.push([G.setz(0, v), { op: 'o1', f, d: 3, a: 0 }, { op: 'au', f: 'shl', d, k: 3 }, { op: 'a2', f: 'mul', d, b: d }])
    out.push([G.setz(0, v), G.setz(1, 1n), { op: 'o1', f: 'sqr', d: 3, a: 1 }, { op: 'o1', f: 'sqrt', d: 2, a: 1 }, { op: 'a2', f: 'add', d: 3, b: 0 }, { op: 'a2', f: 'add', d: 2, b: 0 }])
  }
  return out
}
module.exports = {
  id: 'B08', machine: 'int', spec: 'bigint', trace, fixed, count: t => t === 'quick' ? 4000 : 30000,
  model(tier, seed) { return M.mbt('bigint', 'bigint', seed, tier === 'quick' ? 300 : 3000, 30, s => M.intObs(s.sys), s => M.evCmd(s.ev), { exec: 'int' }) },
}
