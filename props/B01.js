'use strict'
// BigInt signed arithmetic, sign, order
const G = require('../gen/common')
const F = ['add', 'sub', 'mul']
const SMALL = [-3n, -2n, -1n, 0n, 1n, 2n, 3n]
const T = [['u8', 8, 0], ['u16', 16, 0], ['u32', 32, 0], ['u64', 64, 0], ['usize', 64, 0], ['u128', 128, 0], ['i8', 8, 1], ['i16', 16, 1], ['i32', 32, 1], ['i64', 64, 1], ['isize', 64, 1], ['i128', 128, 1]]
function trace(rng) {
  const c = []
  const len = () => rng.chance(0.05) ? rng.int(1, 45) : rng.chance(0.01) ? rng.int(45, 180) : G.smallLen(rng)
  const x = rng.chance(0.1) ? rng.pick(SMALL) : G.zint(rng, len())
  const y = rng.chance(0.1) ? rng.pick(SMALL) : rng.chance(0.4) ? G.znear(rng, x) : G.zint(rng, len())
  c.push(G.setz(0, x), G.setz(1, y, rng.pick(['vec', 'rvec', 'slice', 'nat'])))
  for (const f of F) c.push({ op: 'o2', f, d: 3, a: 0, b: 1 })
  c.push({ op: 'cmp', a: 0, b: 1 }, { op: 'cmp', a: 1, b: 0 }, { op: 'q1', f: 'class', a: 0 }, { op: 'q1', f: 'class', a: 3 })
  for (const f of ['neg', 'abs', 'sqr']) c.push({ op: 'o1', f, d: 2, a: 0 })
  const [t, bits, sg] = rng.pick(T)
  const lo = sg ? -(1n << BigInt(bits - 1)) : 0n, hi = (1n << BigInt(bits - sg)) - 1n
  const k = rng.pick([lo, hi, lo + 1n, 0n, hi >> 1n, BigInt.asUintN(bits - sg, rng.next() * rng.next()), sg ? -BigInt.asUintN(bits - sg, rng.next()) : 1n])
  c.push({ op: 'cons', f: t, d: 2, k }, { op: 'cmp', a: 2, b: 0 }, { op: 'cmpu', a: 2, k: rng.u32() }, { op: 'cmpu', a: 2, k: BigInt.asUintN(32, k < 0n ? -k : k) })
  for (let i = 0; i < 10; i++) {
    if (rng.chance(0.3)) c.push(G.setz(rng.below(4), rng.chance(0.4) ? rng.pick(SMALL) : G.zint(rng, rng.int(1, 3))))
    c.push(rng.wpick([[4, { op: 'o2', f: rng.pick(F), d: rng.below(4), a: rng.below(4), b: rng.below(4) }],
      [4, { op: 'a2', f: rng.pick(F), d: rng.below(4), b: rng.below(4) }],
      [1, { op: 'setneg', d: rng.below(4) }], [1, { op: 'setnat', d: rng.below(4) }],
      [1, { op: 'o1', f: rng.pick(['neg', 'abs']), d: rng.below(4), a: rng.below(4) }],
      [1, { op: 'cmp', a: rng.below(4), b: rng.below(4) }], [1, { op: 'cmpu', a: rng.below(4), k: rng.below(4) }],
      [1, { op: 'q1', f: 'class', a: rng.below(4) }]]))
    if (rng.chance(0.02)) c.push({ op: 'setnan', d: rng.below(4) })
  }
  return c
}
function fixed() {
  const V = [-4294967296n, -4294967295n, -2n, -1n, 0n, 1n, 2n, 4294967295n, 4294967296n]
  const out = []
  for (const x of V) { const c = []
    for (const y of V) { c.push(G.setz(0, x), G.setz(1, y), { op: 'cmp', a: 0, b: 1 }); for (const f of F) c.push({ op: 'o2', f, d: 2, a: 0, b: 1 }, { op: 'q1', f: 'class', a: 2 }, G.setz(3, x), { op: 'a2', f, d: 3, b: 1 }) }
    out.push(c) }
  // every pair of lengths, all four sign combinations, results that lose or gain limbs
  for (let n = 1; n <= 40; n++) { const c = []
    for (const m of [n, 1, 2, (n >> 1) + 1, n + 1]) for (const [s, t] of [[1n, 1n], [1n, -1n], [-1n, 1n], [-1n, -1n]]) {
      const x = ((1n << BigInt(32 * n)) - BigInt(1 + m % 3)) * s, y = (m === n ? (1n << BigInt(32 * n)) - 1n : m % 2 ? (1n << BigInt(32 * m)) - 2n : (1n << BigInt(32 * m - 31)) + 1n) * t
      c.push(G.setz(0, x), G.setz(1, y), { op: 'cmp', a: 0, b: 1 }); for (const f of F) c.push({ op: 'o2', f, d: 2, a: 0, b: 1 }, { op: 'q1', f: 'class', a: 2 }); c.push({ op: 'a2', f: m % 2 ? 'sub' : 'add', d: 1, b: 0 }, { op: 'cmpu', a: 1, k: 1 }) }
    out.push(c) }
  for (let b = 1; b <= 127; b++) { const c = []
    for (const [f, w, sg] of T) { if (b >= w - sg + 1) continue; for (const k of [(1n << BigInt(b)) - 1n, sg ? -(1n << BigInt(b - 1)) : 1n << BigInt(b - 1), ...(sg ? [1n - (1n << BigInt(b))] : [])]) c.push({ op: 'cons', f, d: 2, k }) }
    out.push(c) }
  return out
}
module.exports = { id: 'B01', machine: 'int', spec: 'bigint', trace, fixed, count: t => t === 'quick' ? 10000 : 60000 }
