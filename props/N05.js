'use strict'
// powers and modular powers
const G = require('../gen/common')
function odd(x) { return x | 1n }
function trace(rng, i) {
  const c = []
  const L = rng.wpick([[6, 1], [5, 2], [3, 3], [2, 4], [1, 6], [1, 9], [1, rng.chance(0.15) ? rng.int(10, 60) : rng.int(5, 12)]])
  let n = G.nat(rng, L)
  const k = rng.below(4)
  if (k === 0) n = odd(n)
  else if (k === 1) n = n & ~1n
  else if (k === 2) n = n << BigInt(rng.below(40))
  if (rng.chance(0.08)) n = rng.pick([0n, 1n, 2n, 3n, 4n])
  let x = rng.chance(0.3) ? rng.pick([0n, 1n, 2n, n > 0n ? n - 1n : 0n, n, n + 1n]) : G.nat(rng, rng.chance(0.1) ? L + rng.int(0, 3) : rng.int(1, 5))
  let b = rng.chance(0.3) ? BigInt(rng.below(70)) : rng.chance(0.3) ? rng.pick([0xffffffffn, 1n << 32n, (1n << 32n) + 1n, 1n << 64n, (1n << 63n) | 5n, (1n << 96n) - 1n]) : G.nat(rng, rng.int(1, 4))
  if (L > 12) b &= 0xffffffffffn
  if (n === 0n) { b = BigInt(rng.below(40)) }
  c.push(G.setv(0, x), G.setv(1, b), G.setv(2, n))
  c.push({ op: 'o3', f: 'exp', d: 3, a: 0, b: 1, c: 2 }, { op: 'o3', f: 'powmod', d: 3, a: 0, b: 1, c: 2 })
  // aliased operands
  if (n > 0n && n < (1n << 130n)) {
    c.push({ op: 'o3', f: rng.pick(['exp', 'powmod']), d: 3, a: 2, b: 2, c: 2 })
    c.push({ op: 'o3', f: rng.pick(['exp', 'powmod']), d: 3, a: 0, b: 2, c: 2 }, { op: 'o3', f: rng.pick(['exp', 'powmod']), d: 3, a: 2, b: 0, c: 2 })
  }
  // exponents far longer than the modulus
  if (rng.chance(0.3)) {
    const nn = rng.chance(0.2) ? BigInt(rng.int(1, 40)) : G.nat(rng, rng.int(1, 3)) + 1n, W = rng.int(4, rng.chance(0.2) ? 48 : 14)
    const e = rng.wpick([[3, G.nat(rng, W)], [1, 1n << BigInt(32 * W - rng.below(64))], [1, (1n << BigInt(32 * W)) - 1n - (1n << BigInt(rng.below(32 * W)))]])
    c.push(G.setv(0, G.nat(rng, rng.int(1, 3))), G.setv(1, e), G.setv(2, nn), { op: 'o3', f: rng.pick(['exp', 'powmod']), d: 3, a: 0, b: 1, c: 2 }, { op: 'o3', f: rng.pick(['exp', 'powmod']), d: 3, a: 0, b: 1, c: 2 })
  }
  // plain powers
  const y = G.nat(rng, rng.int(1, 3)), e = BigInt(rng.pick([0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 33]))
  c.push(G.setv(0, rng.chance(0.3) ? rng.pick([0n, 1n, 2n, 3n, 10n]) : y), G.setv(1, e), { op: 'o2', f: 'pow', d: 3, a: 0, b: 1 })
  c.push({ op: 'set', f: 'vec', d: 2, s: [0] }, { op: 'o3', f: 'powmod', d: 3, a: 0, b: 1, c: 2 }, { op: 'o3', f: 'exp', d: 3, a: 0, b: 1, c: 2 })
  c.push(G.setv(0, BigInt(rng.below(12))), { op: 'o2', f: 'pow', d: 1, a: 0, b: 0 })
  return c
}
// the whole cube of small bases, exponents and moduli
function fixed() {
  const out = []
  for (let x = 0; x < 8; x++) for (let n = 0; n < 10; n++) {
    const c = [G.setv(0, BigInt(x)), G.setv(2, BigInt(n))]
    for (let b = 0; b < 12; b++) c.push(G.setv(1, BigInt(b)), { op: 'o3', f: 'exp', d: 3, a: 0, b: 1, c: 2 }, { op: 'o3', f: 'powmod', d: 3, a: 0, b: 1, c: 2 })
    if (n > 0) for (const b of [1n << 32n, (1n << 32n) + 5n, (1n << 64n) - 1n, 7n << 40n]) c.push(G.setv(1, b), { op: 'o3', f: 'exp', d: 3, a: 0, b: 1, c: 2 }, { op: 'o3', f: 'powmod', d: 3, a: 0, b: 1, c: 2 })
    out.push(c)
  }
  // every modulus length
  for (let L = 1; L <= 56; L++) for (let j = 0; j < 3; j++) {
    const r = k => { let x = 0n; for (let i = 0; i < k; i++) x = x << 32n | BigInt(Math.imul(i + 31 * L + 7 * j + k, 0x9e3779b1) >>> 0); return x }
    const n = j === 0 ? r(L) | 1n : j === 1 ? (1n << BigInt(32 * L)) - 1n - 2n * BigInt(L) : r(L) & ~1n | 1n << BigInt(32 * L - 1)
    const c = [G.setv(0, j === 2 ? r(L) >> 3n : n - 2n), G.setv(1, [3n << 33n | 5n, 0x100000001n, 0xffffffffn][j]), G.setv(2, n)]
    for (const f of ['exp', 'powmod']) c.push({ op: 'o3', f, d: 3, a: 0, b: 1, c: 2 })
    c.push(G.setv(0, r(L + 1)), { op: 'o3', f: 'exp', d: 3, a: 0, b: 1, c: 2 }, G.setv(0, r(L)), { op: 'o3', f: 'powmod', d: 3, a: 0, b: 1, c: 2 })
    out.push(c)
  }
  return out
}
module.exports = { id: 'N05', machine: 'nat', trace, fixed, count: t => t === 'quick' ? 9000 : 54000 }
