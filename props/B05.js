'use strict'
// exp, Jacobi symbol, square roots modulo a prime, integer square root
const G = require('../gen/common')
const PR = [3n, 5n, 7n, 11n, 13n, 17n, 19n, 23n, 29n, 31n, 37n, 41n, 43n, 73n, 89n, 97n, 113n, 193n, 241n, 257n, 449n, 577n, 641n, 65537n, 12289n, 40961n, 786433n, 998244353n, 1000000007n, 4294967291n, 4294967311n, 2147483647n, 2013265921n, 18446744069414584321n, 2305843009213693951n, 4611686018427387847n, 18446744073709551557n, 1000000000000000003n, 3318308475676071413n]
const { CERT, LATE, PROTH, PROTHC } = require('../gen/primes')
const BIGPR = CERT.filter(c => c[0] < 1n << 330n).concat(PROTHC)
function exps(rng) {
  const c = []
  const small = rng.chance(0.5)
  const len = () => rng.chance(0.95) ? rng.int(1, 3) : rng.int(3, 14)
  const x = small ? BigInt(rng.int(-30, 30)) : G.zint(rng, len())
  let n = rng.chance(0.1) ? 0n : small ? BigInt(rng.int(-40, 40)) : G.zint(rng, len())
  let b = rng.chance(0.2) ? BigInt(rng.int(-3, 3)) : n === 0n ? BigInt(rng.int(-4, 40)) : rng.chance(0.4) ? BigInt(rng.int(-70, 70)) : G.zint(rng, rng.chance(0.85) ? rng.int(1, 2) : rng.int(2, 7))
  c.push(G.setz(0, x), G.setz(1, b), G.setz(2, n), { op: 'o3', d: rng.below(4), a: 0, b: 1, c: 2 })
  return c
}
function trace(rng) {
  const c = []
  for (let j = 0; j < 5; j++) c.push(...exps(rng))
  for (let j = 0; j < 4; j++) {
    const big = rng.chance(0.08) ? rng.pick(BIGPR) : null, p = big ? big[0] : rng.chance(0.1) ? rng.pick(LATE) : rng.chance(0.25) ? rng.pick(PROTH) : rng.pick(PR), x = rng.chance(0.3) ? BigInt(rng.int(-50, 50)) : rng.chance(0.3) ? G.zint(rng, rng.int(1, 3)) : (G.nat(rng, rng.int(1, big ? 9 : 2)) % p) ** 2n % p
    c.push(G.setz(0, x), G.setz(1, p), { op: 'modsqrt', d: rng.pick([2, 3, 0]), a: 0, b: 1, ...(big ? { g: [0n, big[1], ...big[2]] } : {}) })
    let m = rng.chance(0.5) ? BigInt(rng.int(1, 99)) : G.nat(rng, rng.chance(0.9) ? rng.int(1, 3) : rng.int(3, 12)); m |= 1n; if (rng.chance(0.25)) m = -m
    const a = rng.chance(0.3) ? BigInt(rng.int(-50, 50)) : rng.chance(0.2) ? m * BigInt(rng.int(-3, 3)) + BigInt(rng.below(3)) : G.zint(rng, rng.chance(0.9) ? rng.int(1, 3) : rng.int(3, 12))
    c.push(G.setz(0, a), G.setz(1, m), { op: 'jacobi', a: 0, b: 1 })
  }
  c.push(G.setz(3, 0n), { op: 'jacobi', a: 0, b: 3 })
  const q = G.nat(rng, rng.chance(0.9) ? rng.int(1, 4) : rng.int(4, 30)); c.push(G.setz(0, q * q + BigInt(rng.int(-1, 1))), { op: 'o1', f: 'sqrt', d: 1, a: 0 }, G.setz(0, G.zint(rng, rng.int(1, 4))), { op: 'o1', f: 'sqrt', d: 1, a: 0 })
  if (rng.chance(0.1)) c.push({ op: 'setnan', d: rng.below(3) }, { op: 'o3', d: 3, a: 0, b: 1, c: 2 }, { op: 'o1', f: 'sqrt', d: 3, a: 0 })
  return c
}
function fixed() {
  const out = []
  for (const p of PR.slice(0, 25)) { const c = [G.setz(1, p)]
    for (let x = -8n; x < 130n && x <= 2n * p; x++) c.push(G.setz(0, x), { op: 'modsqrt', d: 2, a: 0, b: 1 })
    out.push(c) }
  for (let m = -41; m <= 41; m += 2) { const c = [G.setz(1, BigInt(m))]
    for (let x = -24; x <= 24; x++) c.push(G.setz(0, BigInt(x)), { op: 'jacobi', a: 0, b: 1 })
    out.push(c) }
  // exponents of every length, full and sparse, odd and even, of both signs; the modulus is odd, the base a power of two
  for (let L = 1; L <= 10; L++) { const c = []
    const top = 1n << BigInt(32 * L - 7), one = BigInt(L) * 2n + 1n
    for (const b of [top + one, top - 1n, top | (1n << 33n) | 1n, top + 2n * one])
      for (const s of [1n, -1n]) for (const [x, m] of [[-2n, 1000000007n], [-(1n << 65n), (1n << 70n) + 3n], [4n, -((1n << 40n) + 7n)]]) c.push(G.setz(0, x), G.setz(1, s * b), G.setz(2, m), { op: 'o3', d: 3, a: 0, b: 1, c: 2 })
    out.push(c) }
  for (let n = -9; n <= 9; n++) { const c = [G.setz(2, BigInt(n))]
    for (let x = -7; x <= 7; x++) for (let b = -4; b <= 5; b++) c.push(G.setz(0, BigInt(x)), G.setz(1, BigInt(b)), { op: 'o3', d: 3, a: 0, b: 1, c: 2 })
    out.push(c) }
  return out
}
module.exports = { id: 'B05', machine: 'int', spec: 'bigint', trace, fixed, count: t => t === 'quick' ? 3000 : 18000 }
