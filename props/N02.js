'use strict'
// Nat bitwise operations, shifts and bit queries
const G = require('../gen/common')
const F = ['and', 'or', 'xor', 'andnot']
const SH = [0, 1, 2, 7, 15, 16, 30, 31, 32, 33, 34, 47, 62, 63, 64, 65, 66, 95, 96, 97, 127, 128, 129, 160, 191, 192, 256, 288, 320, 321, 511, 512]
function trace(rng) {
  const c = []
  const x = G.nat(rng, G.smallLen(rng))
  const y = rng.chance(0.3) ? G.near(rng, x) : G.nat(rng, G.smallLen(rng))
  c.push(G.setv(0, x), G.setv(1, y))
  const bl = x.toString(2).length
  for (const f of F) c.push({ op: 'o2', f, d: 2, a: 0, b: 1 })
  for (const f of F) c.push({ op: 'o2', f, d: 2, a: 1, b: 0 })
  c.push({ op: 'o1', f: 'not', d: 3, a: 0 }, { op: 'o1', f: 'not', d: 3, a: 3 })
  for (let i = 0; i < 8; i++) {
    const k = rng.chance(0.5) ? rng.pick(SH) : rng.chance(0.5) ? Math.max(0, bl + rng.int(-34, 34)) : rng.below(300)
    const f = rng.pick(['shl', 'shr', 'shr'])
    if (rng.chance(0.6)) c.push({ op: 'ou', f, d: 2, a: rng.below(2), k })
    else c.push({ op: 'deep', d: 3, a: rng.below(2) }, { op: 'au', f, d: 3, k })
    if (rng.chance(0.05)) { const far = rng.pick(G.FAR); c.push({ op: 'ou', f: 'shr', d: 2, a: rng.below(2), k: far }, { op: 'qbit', a: rng.below(2), k: far }, { op: 'deep', d: 3, a: 0 }, { op: 'au', f: 'shr', d: 3, k: far }) }
    if (rng.chance(0.004)) c.push({ op: 'ou', f: 'shl', d: 3, a: 0, k: rng.pick([1023, 1024, 2047, 2048, 4096, 16384, 32767, 65535, 65536, 65537, rng.below(70000)]) }, { op: 'q1', f: 'bits', a: 3 }, { op: 'q1', f: 'tz', a: 3 }, G.setv(3, 5n))
    c.push({ op: 'q1', f: 'bits', a: rng.below(4) }, { op: 'q1', f: 'tz', a: rng.below(4) })
  }
  for (let i = 0; i < 6; i++) {
    c.push({ op: 'qbit', a: 0, k: rng.chance(0.4) ? Math.max(0, bl + rng.int(-2, 2)) : rng.chance(0.5) ? rng.pick(SH) : rng.below(bl) })
  }
  for (let i = 0; i < 4; i++) {
    c.push({ op: 'a2', f: rng.pick(F), d: rng.below(4), b: rng.below(4) })
    if (rng.chance(0.3)) c.push(G.setv(rng.below(4), G.nat(rng, G.smallLen(rng))))
  }
  return c
}
// every shift amount 0..130 on a few characteristic values, in and out of place
function fixed() {
  const out = []
  for (const v of [0n, 1n, 0xffffffffn, 1n << 32n, (1n << 64n) - 1n, (1n << 95n) + 1n, (1n << 128n) - 5n, 0xdeadbeefcafebabe12345678n]) {
    for (let lo = 0; lo <= 130; lo += 22) {
      const c = [G.setv(0, v)]
      for (let k = lo; k < lo + 22; k++) c.push({ op: 'ou', f: 'shl', d: 1, a: 0, k }, { op: 'ou', f: 'shr', d: 2, a: 0, k }, { op: 'ou', f: 'shr', d: 3, a: 1, k }, { op: 'qbit', a: 0, k })
      out.push(c)
    }
  }
  // every length, every whole number of limbs moved, with the top limb emptied, filled or carried into
  for (let L = 1; L <= 80; L++) {
    const c = [], l = BigInt(32 * L)
    for (const [d, v] of [[0, (1n << (l - 31n)) - 1n], [1, (1n << l) - 1n]]) {
      c.push(G.setv(d, v))
      for (let m = 0; m <= L; m++) {
        const s = [1, 31, 0, 17][(m + L + d) % 4]
        c.push({ op: 'ou', f: 'shr', d: 2, a: d, k: 32 * m + 1 }, { op: 'ou', f: 'shr', d: 3, a: d, k: 32 * m + 31 })
        if (m < 9 || (m + L) % 8 === 0) c.push({ op: 'ou', f: 'shl', d: 2, a: d, k: 32 * m + s }, { op: 'ou', f: 'shl', d: 3, a: d, k: 32 * m + 1 })
      }
    }
    out.push(c)
  }
  return out
}
module.exports = { id: 'N02', machine: 'nat', trace, fixed, count: t => t === 'quick' ? 7500 : 45000 }
