'use strict'
// Nat ring arithmetic
const G = require('../gen/common')
const F = ['add', 'sub', 'mul', 'div', 'rem', 'subs']
function trace(rng) {
  const c = []
  const big = rng.chance(0.12)
  const len = () => big ? rng.chance(0.9) ? rng.int(1, 45) : rng.int(30, 180) : G.smallLen(rng)
  const x = G.nat(rng, len())
  const y = rng.chance(0.35) ? G.near(rng, x) : G.nat(rng, len())
  c.push(G.setv(0, x), G.setv(1, y, rng.pick(['vec', 'rvec', 'slice'])))
  if (rng.chance(0.3)) c.push({ op: 'setnan', d: 2 })
  for (const f of F) c.push({ op: 'o2', f, d: 3, a: 0, b: 1 })
  for (let i = 0; i < 6; i++) {
    const k = rng.chance(0.6) ? rng.pick(G.EDGE) : BigInt(rng.u32())
    const f = rng.pick(['add', 'sub', 'mul', 'div', 'rem'])
    if (rng.chance(0.5)) c.push({ op: 'ou', f, d: rng.below(4), a: rng.below(4), k })
    else if (k !== 0n) c.push({ op: 'au', f, d: rng.below(4), k })
  }
  // (q * y + r) with chosen q, r: exercises exact and off-by-one quotients
  const q = G.nat(rng, rng.chance(0.1) ? rng.int(4, 30) : rng.int(1, 4)), r = rng.pick([0n, 1n, y > 0n ? y - 1n : 0n])
  c.push(G.setv(0, q * y + r), G.setv(1, y), { op: 'o2', f: 'div', d: 2, a: 0, b: 1 }, { op: 'o2', f: 'rem', d: 3, a: 0, b: 1 })
  for (let i = 0; i < 8; i++) {
    const f = rng.pick(F)
    if (rng.chance(0.5)) c.push({ op: 'o2', f, d: rng.below(4), a: rng.below(4), b: rng.below(4) })
    else c.push({ op: 'a2', f, d: rng.below(4), b: rng.below(4) })
    if (rng.chance(0.1)) c.push({ op: 'clone', d: rng.below(4), a: rng.below(4) })
    if (rng.chance(0.3)) c.push(G.setv(rng.below(4), G.nat(rng, G.smallLen(rng))))
  }
  return c
}
// every pair of lengths: carries and borrows through all limbs, quotients at their limits
function fixed() {
  const out = []
  for (let n = 1; n <= 56; n++) for (let m0 = 1; m0 <= n; m0 += 8) {
    const N = BigInt(32 * n), c = []
    for (let m = m0; m < m0 + 8 && m <= n; m++) {
      const M = BigInt(32 * m), top = 1n << N, p = (n + m) % 4
      const y = p === 0 ? (1n << M) - 1n : p === 1 ? (1n << (M - 1n)) + BigInt(n) : p === 2 ? (1n << (M - 32n)) + 1n : (1n << M) / 3n
      const q = (n * 3 + m) % 3 === 0 ? (1n << BigInt(32 * (n - m))) : (n + m) % 3 === 1 ? (1n << BigInt(32 * (n - m + 1) - 1)) - 1n : (1n << BigInt(32 * (n - m) + 5)) / 7n + 1n
      c.push(G.setv(0, q * y + (y - 1n)), G.setv(1, y), { op: 'o2', f: 'div', d: 2, a: 0, b: 1 }, { op: 'o2', f: 'rem', d: 3, a: 0, b: 1 }, G.setv(0, q * y), { op: 'o2', f: 'div', d: 2, a: 0, b: 1 }, { op: 'o2', f: 'rem', d: 3, a: 0, b: 1 }, { op: 'o2', f: 'mul', d: 3, a: 2, b: 1 })
      c.push(G.setv(0, top - y), { op: 'o2', f: 'add', d: 2, a: 0, b: 1 }, { op: 'o2', f: 'sub', d: 3, a: 2, b: 1 }, G.setv(0, top - 1n), { op: 'o2', f: 'add', d: 2, a: 1, b: 0 }, { op: 'a2', f: 'sub', d: 2, b: 0 }, { op: 'o2', f: 'subs', d: 3, a: 1, b: 0 })
    }
    out.push(c)
  }
  for (let n = 1; n <= 130; n++) { const N = BigInt(32 * n), c = []
    for (const k of [1n, 2n, 3n, 10n, 65535n, 1n << 31n, 0xffffffffn]) c.push(G.setv(0, (1n << N) - k), { op: 'ou', f: 'add', d: 1, a: 0, k }, { op: 'ou', f: 'sub', d: 2, a: 1, k }, { op: 'ou', f: 'mul', d: 3, a: 0, k }, { op: 'ou', f: 'div', d: 2, a: 3, k }, { op: 'ou', f: 'rem', d: 2, a: 3, k }, { op: 'au', f: 'sub', d: 3, k }, { op: 'ou', f: 'rem', d: 2, a: 3, k }, { op: 'au', f: 'div', d: 3, k })
    out.push(c) }
  return out
}
module.exports = { id: 'N01', machine: 'nat', trace, fixed, count: t => t === 'quick' ? 20000 : 120000 }
