'use strict'
// gcd with Bezout coefficients, modular inverse, linear congruences
const G = require('../gen/common')
function trace(rng) {
  const c = []
  for (let j = 0; j < 4; j++) {
    const g = rng.chance(0.5) ? 1n : G.nat(rng, rng.int(1, 2)), one = () => (rng.chance(0.3) ? BigInt(rng.int(-20, 20)) : G.zint(rng, rng.chance(0.95) ? rng.int(1, 4) : rng.int(4, 25)))
    const x = g * one(), y = rng.chance(0.15) ? x * one() : g * one()
    c.push(G.setz(0, x), G.setz(1, y), { op: 'gcd', d: rng.pick([0, 1, 2, 3]), a: 0, b: 1 }, G.setz(0, x), G.setz(1, y), { op: 'gcd', d: 2, a: 1, b: 0 })
    const x2 = one(); let n = rng.chance(0.3) ? BigInt(rng.int(2, 60)) : G.nat(rng, rng.chance(0.95) ? rng.int(1, 3) : rng.int(3, 20)); if (n === 0n) n = 7n
    if (rng.chance(0.3)) n = -n
    c.push(G.setz(0, x2), G.setz(1, n), { op: 'o2', f: 'modinv', d: 2, a: 0, b: 1 })
    // a x = b mod n with a small number of solutions
    const d = BigInt(rng.int(1, 12)); const m = d * (rng.chance(0.5) ? BigInt(rng.int(1, 60)) : G.nat(rng, rng.int(1, 2)) + 1n)
    let a = d * one(), b = rng.chance(0.75) ? d * one() : one()
    // keep the number of solutions small (a bound on cost only; the specification decides)
    let u = a < 0n ? -a : a, v = m; while (v) [u, v] = [v, u % v]
    if (u > 400n) continue
    c.push(G.setz(0, a), G.setz(1, b), G.setz(2, rng.chance(0.25) ? -m : m), { op: 'lineq', a: 0, b: 1, c: 2 })
  }
  // numbers whose inverse is small, or close to the modulus
  for (let j = 0; j < 2; j++) {
    const n = G.nat(rng, rng.int(1, 8)) + 2n, k = rng.chance(0.6) ? BigInt(rng.int(1, 60)) : G.nat(rng, rng.int(1, 2)), a = G.inv(k, n)
    if (a !== null) c.push(G.setz(0, rng.chance(0.5) ? a : n - a), G.setz(1, rng.chance(0.2) ? -n : n), { op: 'o2', f: 'modinv', d: 2, a: 0, b: 1 }, G.setz(0, rng.chance(0.5) ? -a : a + n), { op: 'o2', f: 'modinv', d: 3, a: 0, b: 1 })
  }
  if (rng.chance(0.1)) c.push({ op: 'setnan', d: rng.below(2) }, { op: 'o2', f: 'modinv', d: 3, a: 0, b: 1 }, { op: 'lineq', a: 0, b: 1, c: 2 }, { op: 'gcd', d: 1, a: 0, b: 1 })
  return c
}
function fixed() {
  const out = []
  for (let x = -14; x <= 14; x++) { const c = []
    for (let y = -14; y <= 14; y++) { c.push(G.setz(0, BigInt(x)), G.setz(1, BigInt(y)), { op: 'gcd', d: 2, a: 0, b: 1 }); if (y) c.push(G.setz(0, BigInt(x)), { op: 'o2', f: 'modinv', d: 2, a: 0, b: 1 }) }
    out.push(c) }
  for (let n = 1; n <= 12; n++) { const c = []
    for (let a = -n - 1; a <= n + 1; a++) for (let b = -n - 1; b <= n + 1; b++) c.push(G.setz(0, BigInt(a)), G.setz(1, BigInt(b)), G.setz(2, BigInt((a + b) % 2 ? n : -n)), { op: 'lineq', a: 0, b: 1, c: 2 })
    out.push(c) }
  // operands, common factors and moduli of every length
  for (let n = 1; n <= 44; n++) { const c = [], B = BigInt(32 * n), g = [(1n << B) - 1n, (1n << (B - 1n)) + 1n, 1n << (B - 1n)][n % 3], s = n % 2 ? 1n : -1n
    for (const [x, y] of [[g * 6n * s, g * 35n], [g * 4n, g * s], [(1n << B) - 5n, ((1n << (B >> 1n)) + 1n) * s], [g * 3n, g * 3n * s]]) c.push(G.setz(0, x), G.setz(1, y), { op: 'gcd', d: 2, a: 0, b: 1 }, G.setz(0, x), { op: 'gcd', d: 3, a: 1, b: 0 })
    for (const [x, m] of [[3n * s, (1n << B) - 1n + (n % 2 ? 4n : 6n)], [(1n << B) - 3n, (1n << B) - 1n], [(1n << (B >> 1n)) + 1n, (1n << B) + 1n], [g, g * 3n]]) c.push(G.setz(0, x), G.setz(1, m), { op: 'o2', f: 'modinv', d: 2, a: 0, b: 1 })
    for (const d of [1n, 2n, 6n]) c.push(G.setz(0, 6n * ((1n << B) - 3n) * s), G.setz(1, d * ((1n << (B - 1n)) + 7n)), G.setz(2, d * ((1n << B) + 1n)), { op: 'lineq', a: 0, b: 1, c: 2 })
    out.push(c) }
  return out
}
module.exports = { id: 'B04', machine: 'int', spec: 'bigint', trace, fixed, count: t => t === 'quick' ? 4500 : 27000 }
