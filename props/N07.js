'use strict'
// integers, limbs, bytes <-> Nat
const G = require('../gen/common')
const T = { u8: 8, u16: 16, u32: 32, u64: 64, usize: 64, u128: 128 }
function trace(rng) {
  const c = []
  for (const f of Object.keys(T)) {
    const b = BigInt(T[f]), m = (1n << b) - 1n
    const k = rng.chance(0.4) ? rng.pick([0n, 1n, m, m - 1n, 1n << (b - 1n), m >> 1n]) : rng.chance(0.5) ? (1n << BigInt(rng.below(T[f]))) : (rng.next() << 64n | rng.next()) & m >> BigInt(rng.below(T[f]))
    c.push({ op: 'cons', f, d: 0, k }, { op: 'q1', f: 'le', a: 0 }, { op: 'q1', f: 'be', a: 0 })
  }
  const n = rng.chance(0.93) ? rng.below(22) : rng.below(300)
  const t = Array.from({ length: n }, () => rng.chance(0.4) ? rng.pick([0, 255, 1, 128]) : rng.below(256))
  if (rng.chance(0.4)) for (let i = 0; i < rng.below(6) && i < n; i++) { t[n - 1 - i] = 0 }
  if (rng.chance(0.4)) for (let i = 0; i < rng.below(6) && i < n; i++) { t[i] = 0 }
  for (const f of ['le', 'be', 'slice', 'vec', 'rvec']) {
    c.push({ op: 'consb', f, d: 1, t })
    if (rng.chance(0.5)) c.push({ op: 'q1', f: rng.pick(['le', 'cle']), a: 1 }, { op: 'q1', f: rng.pick(['be', 'cbe']), a: 1 })
  }
  const x = G.nat(rng, rng.chance(0.95) ? rng.int(1, 12) : rng.int(12, 130))
  c.push(G.setv(2, x))
  for (const f of ['le', 'be', 'cle', 'cbe']) c.push({ op: 'q1', f, a: 2 })
  c.push({ op: 'set', f: rng.pick(['vec', 'rvec', 'slice']), d: 3, s: G.limbsOf(rng, rng.below(6)).concat(rng.chance(0.3) ? [0, 0] : []) })
  return c
}
// every length of byte strings: full, a lone first or last byte, alternating; and every length of limb strings
function fixed() {
  const out = []
  for (let n = 1; n <= 300; n++) {
    const c = [], one = i => Array.from({ length: n }, (_, j) => j === i ? 1 : 0), v = ['slice', 'vec', 'rvec', 'le'][n % 4]
    const P = [one(0), one(n - 1), Array(n).fill(255), Array.from({ length: n }, (_, j) => (j >> 2) & 1 ? 0 : 255)]
    if (n > 1) P.push(P[2].map((x, j) => j === n - 1 ? 127 + (n & 1) : x))
    for (const t of P) c.push({ op: 'consb', f: v, d: 1, t }, { op: 'consb', f: 'be', d: 2, t })
    c.push({ op: 'q1', f: 'le', a: 1 }, { op: 'q1', f: 'be', a: 1 }, { op: 'q1', f: 'cle', a: 2 }, { op: 'q1', f: 'cbe', a: 2 })
    out.push(c)
  }
  for (let n = 1; n <= 70; n++) { // the top limb takes 1..4 bytes in every length
    const c = []
    for (const t of [1n, 0x7fn, 0x80n, 0xffn, 0x100n, 0xffffn, 0x10000n, 0xffffffn, 0x1000000n, 0xffffffffn])
      c.push(G.setv(0, (t << BigInt(32 * n - 32)) + (n > 1 ? 5n : 0n)), { op: 'q1', f: n & 1 ? 'le' : 'cle', a: 0 }, { op: 'q1', f: n & 1 ? 'cbe' : 'be', a: 0 })
    out.push(c)
  }
  return out
}
module.exports = { id: 'N07', machine: 'nat', trace, fixed, count: t => t === 'quick' ? 6000 : 36000 }
