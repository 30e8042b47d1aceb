'use strict'
// NaN: born, propagated, never mistaken for a number; zero divisors are the only panics
const G = require('../gen/common')
const F2 = ['add', 'sub', 'mul', 'div', 'rem', 'and', 'or', 'xor', 'andnot', 'subs']
function trace(rng) {
  const c = []
  for (let d = 0; d < 4; d++) c.push(rng.chance(0.3) ? { op: 'setnan', d } : G.setv(d, rng.chance(0.3) ? 0n : G.nat(rng, rng.int(1, 4))))
  for (let i = 0; i < 24; i++) {
    const d = rng.below(4), a = rng.below(4), b = rng.below(4)
    c.push(rng.pick([
      { op: 'o2', f: rng.pick(F2.concat(['mulk'])), d, a, b },
      { op: 'o2', f: rng.pick(F2.concat(['mulk'])), d, a, b },
      { op: 'a2', f: rng.pick(['add', 'sub', 'mul', 'and', 'or', 'xor', 'andnot', 'subs']), d, b },
      { op: 'ou', f: rng.pick(['add', 'sub', 'mul', 'shl', 'shr', 'div', 'rem']), d, a, k: rng.below(40) },
      { op: 'au', f: rng.pick(['add', 'sub', 'mul', 'shl', 'shr']), d, k: rng.below(40) },
      { op: 'o1', f: rng.pick(['not', 'sqr', 'sqrt']), d, a },
      { op: 'q1', f: rng.pick(['bits', 'tz', 'isnan', 'le', 'be']), a }, { op: 'qbit', a, k: rng.below(3) },
      { op: 'cmp', a, b }, { op: 'cmpu', f: 'u32', a, k: 0 }, { op: 'fmt', f: rng.pick(['d', 'x', 'o', 'b', 'X', 'g']), a },
      { op: 'setnan', d }, G.setv(d, G.nat(rng, rng.int(1, 3))), { op: 'clone', d, a }, { op: 'deep', d, a },
      { op: 'random', d, a, k: 5, s: [] },
      { op: 'prime', a: d, k: 7, n: 2, s: [] }].filter(x => x.op !== 'prime' || false)))
    if (i % 8 === 7) c.push({ op: 'setnan', d: rng.below(4) }, G.setv(rng.below(4), BigInt(rng.below(6))))
  }
  c.push({ op: 'setnan', d: 0 }, G.setv(1, BigInt(rng.below(6))), G.setv(2, BigInt(rng.below(6))))
  const p = rng.shuffle([0, 1, 2])
  for (const f of ['exp', 'powmod']) c.push({ op: 'o3', f, d: 3, a: p[0], b: p[1], c: p[2] })
  c.push({ op: 'o2', f: 'pow', d: 3, a: 0, b: 1 }, { op: 'o2', f: 'pow', d: 3, a: 1, b: 0 }, { op: 'prime', a: 0, n: 3, k: 3, s: [] })
  return c
}
function fixed() {
  const out = []
  const vals = [null, 0n, 1n, 7n, (1n << 32n), (1n << 64n) + 1n]
  const set = (d, v) => v === null ? { op: 'setnan', d } : G.setv(d, v)
  for (const x of vals) for (const y of vals) {
    for (const f of F2.concat(['mulk'])) out.push([set(0, x), set(1, y), { op: 'o2', f, d: 2, a: 0, b: 1 }, ...(f === 'mulk' ? [] : [{ op: 'clone', d: 3, a: 0 }, { op: 'a2', f, d: 0, b: 1 }])])
    out.push([set(0, x), set(1, y), { op: 'cmp', a: 0, b: 1 }])
  }
  for (const x of vals) for (const f of ['add', 'sub', 'mul', 'div', 'rem', 'shl', 'shr']) for (const k of [0, 1, 32]) out.push([set(0, x), { op: 'ou', f, d: 1, a: 0, k }, { op: 'au', f, d: 0, k }])
  return out
}
module.exports = { id: 'N10', machine: 'nat', trace, fixed, count: t => t === 'quick' ? 8000 : 48000 }
