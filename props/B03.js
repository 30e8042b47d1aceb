'use strict'
// two's complement bitwise operators, shifts and bit queries
const G = require('../gen/common')
const F = ['and', 'or', 'xor', 'andnot']
function special(rng) { const k = BigInt(rng.below(130)); const v = rng.pick([1n << k, (1n << k) - 1n, (1n << k) + 1n, (1n << k) ^ (1n << BigInt(rng.below(130)))]); return rng.chance(0.5) ? -v : v }
function trace(rng) {
  const c = []
  const one = () => rng.chance(0.4) ? special(rng) : G.zint(rng, G.smallLen(rng))
  for (let j = 0; j < 3; j++) {
    const x = one(), y = rng.chance(0.3) ? G.znear(rng, x) : one()
    c.push(G.setz(0, x), G.setz(1, y))
    for (const f of F) { c.push({ op: 'o2', f, d: 2, a: 0, b: 1 }); if (rng.chance(0.5)) c.push({ op: 'deep', d: 3, a: 0 }, { op: 'a2', f, d: 3, b: 1 }) }
    c.push({ op: 'o1', f: 'not', d: 2, a: 0 })
    const k = rng.wpick([[3, rng.below(200)], [2, 32 * rng.below(6)], [1, 32 * rng.int(1, 6) - 1], [1, rng.int(0, 5)]])
    c.push({ op: 'ou', f: 'shl', d: 2, a: 0, k }, { op: 'ou', f: 'shr', d: 2, a: 1, k }, { op: 'q1', f: 'bits', a: 2 })
    c.push({ op: 'deep', d: 3, a: 1 }, { op: 'au', f: rng.pick(['shl', 'shr']), d: 3, k })
    if (rng.chance(0.15)) { const far = rng.pick(G.FAR); c.push({ op: 'ou', f: 'shr', d: 2, a: rng.below(2), k: far }, { op: 'qbit', a: rng.below(2), k: far }, { op: 'deep', d: 3, a: 0 }, { op: 'au', f: 'shr', d: 3, k: far }) }
    if (rng.chance(0.01)) c.push({ op: 'ou', f: 'shl', d: 3, a: 0, k: rng.pick([1023, 1024, 2048, 4096, 32767, 65536, 65537, rng.below(70000)]) }, { op: 'q1', f: 'bits', a: 3 }, G.setz(3, 5n))
    const L = (x < 0n ? -x : x).toString(2).length
    for (const b of [0, L - 2, L - 1, L, L + 1, rng.below(L + 3)]) if (b >= 0) c.push({ op: 'qbit', a: 0, k: b })
    if (rng.chance(0.05)) c.push({ op: 'setnan', d: rng.below(2) }, ...F.map(f => ({ op: 'o2', f, d: 2, a: 0, b: 1 })), { op: 'o1', f: 'not', d: 2, a: 0 }, { op: 'ou', f: 'shr', d: 2, a: 0, k }, { op: 'qbit', a: 0, k: 0 })
  }
  return c
}
function fixed() {
  const out = []
  for (let x = -17; x <= 17; x++) { const c = []
    for (let y = -17; y <= 17; y++) { c.push(G.setz(0, BigInt(x)), G.setz(1, BigInt(y))); for (const f of F) c.push({ op: 'o2', f, d: 2, a: 0, b: 1 }) }
    for (let k = 0; k < 7; k++) c.push({ op: 'qbit', a: 0, k }, { op: 'ou', f: 'shr', d: 2, a: 0, k }, { op: 'ou', f: 'shl', d: 2, a: 0, k: 32 * k })
    out.push(c) }
  // the borrow and the carry of a negative shift and of a bit query travel over any number of limbs
  for (let k = 0; k <= 1312; k += k < 200 ? 1 : k % 32 === 30 ? 1 : k % 32 === 31 ? 1 : k % 32 === 0 ? 1 : 29) { const c = [], K = BigInt(k)
    for (const x of [1n << K, 5n << K, (1n << K) + 1n, (1n << (K + 70n)) - (1n << K)]) {
      c.push(G.setz(0, -x))
      for (const s of [k - 1, k, k + 1, k + 32]) if (s >= 0) c.push({ op: 'ou', f: 'shr', d: 2, a: 0, k: s })
      c.push({ op: 'o1', f: 'not', d: 3, a: 0 }, { op: 'qbit', a: 0, k }, { op: 'qbit', a: 3, k })
    }
    out.push(c) }
  return out
}
module.exports = { id: 'B03', machine: 'int', spec: 'bigint', trace, fixed, count: t => t === 'quick' ? 5000 : 40000 }
