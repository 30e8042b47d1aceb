'use strict'
// Rat <-> f32/f64: exact decode, nearest-even encode, exactness flag
const G = require('../gen/common')
const { setr, rat } = require('./R01')
const sh = (x, k) => k >= 0n ? x << k : x >> -k
const FM = { f32: [24n, 8n], f64: [53n, 11n] }
function bits(rng, f) {
  const [p, w] = FM[f]
  const ef = rng.pick([0n, 1n, 2n, (1n << w) - 2n, (1n << w) - 1n, (1n << (w - 1n)) - 1n, (1n << (w - 1n)) - 2n + p, (1n << (w - 1n)) + p, BigInt(rng.below(Number(1n << w)))])
  const M = (1n << (p - 1n)) - 1n
  const m = rng.pick([0n, 1n, M, M - 1n, M >> 1n, rng.next() & M, (rng.next() & M) | 1n, 1n << BigInt(rng.below(Number(p - 1n)))])
  return ((rng.chance(0.4) ? 1n : 0n) << (p + w - 1n)) | ef << (p - 1n) | m
}
const val = (f, b) => { // magnitude as m * 2^k
  const [p, w] = FM[f]; const ef = b >> (p - 1n) & ((1n << w) - 1n), m = b & ((1n << (p - 1n)) - 1n)
  const k = (ef ? ef : 1n) - 1n + 2n - ((1n << (w - 1n)) - 1n) - p
  return [ef ? m | 1n << (p - 1n) : m, k]
}
// a fraction on, just above or just below a boundary between two neighbouring floats
function boundary(rng, f, d) {
  let [m, k] = val(f, bits(rng, f)); m = 2n * m + BigInt(rng.int(0, 1)); k -= 1n
  let p = m, q = 1n
  if (k >= 0n) p <<= k; else q <<= -k
  switch (rng.below(4)) {
    case 0: break
    case 1: { const e = 1n << BigInt(rng.int(1, 300)); p = p * e + 1n; q *= e; break }
    case 2: { const e = 1n << BigInt(rng.int(1, 300)); p = p * e - 1n; q *= e; break }
    default: { const e = G.nat(rng, 2) + 2n; p = p * e + BigInt(rng.int(-1, 1)); q *= e }
  }
  if (rng.chance(0.3)) p = -p
  return setr(d, p, q)
}
function trace(rng) {
  const c = []
  for (let i = 0; i < 5; i++) { const f = rng.pick(['f32', 'f64'])
    c.push({ op: 'fromf', f, d: 0, k: bits(rng, f) }, { op: 'class', a: 0 }, { op: 'tof', f: 'f64', a: 0 }, { op: 'tof', f: 'f32', a: 0 }) }
  for (let i = 0; i < 6; i++) c.push(boundary(rng, rng.pick(['f32', 'f64']), 1), { op: 'tof', f: 'f64', a: 1 }, { op: 'tof', f: 'f32', a: 1 })
  c.push(rat(rng, 2), { op: 'tof', f: 'f64', a: 2 }, { op: 'tof', f: 'f32', a: 2 })
  const e = BigInt(rng.int(-1200, 1200)), n = G.nat(rng, rng.int(1, 3)) + 1n, dn = G.nat(rng, rng.int(1, 3)) + 1n
  c.push(setr(2, e > 0n ? n << e : n, e > 0n ? dn : dn << -e), { op: 'tof', f: 'f64', a: 2 }, { op: 'tof', f: 'f32', a: 2 })
  if (rng.chance(0.1)) c.push({ op: 'setnan', d: 3, k: rng.below(2) }, { op: 'tof', f: 'f64', a: 3 }, { op: 'tof', f: 'f32', a: 3 })
  return c
}
function fixed() {
  const out = []
  for (const f of ['f32', 'f64']) { const [p, w] = FM[f], S = 1n << (p + w - 1n), c = []
    const M = (1n << (p - 1n)) - 1n
    for (let ef = 0n; ef < (1n << w); ef += 1n) for (const m of f === 'f32' || ef % 8n === 0n ? [0n, 1n, M] : [M - ef, ef << 31n, (0x123456789abcdn * ef & M) >> 3n << 3n | 4n]) c.push({ op: 'fromf', f, d: 0, k: ef << (p - 1n) | m }, { op: 'tof', f, a: 0 })
    for (const b of [0n, S, 1n, S + 1n, M, M + 1n, S - 1n]) c.push({ op: 'fromf', f, d: 0, k: b }, { op: 'tof', f: 'f32', a: 0 }, { op: 'tof', f: 'f64', a: 0 })
    for (let i = 0; i < c.length; i += 60) out.push(c.slice(i, i + 60)) }
  // around the total-underflow and overflow thresholds of both formats
  for (const [f, lo, hi] of [['f32', 149n, 128n], ['f64', 1074n, 1024n]]) { const c = []
    const [p] = FM[f]
    for (const t of [1n, 2n, 3n, 4n, 5n, 6n, 7n, 9n, 15n, 17n]) for (const j of [-1n, 0n, 1n, 2n, 3n]) c.push(setr(0, t, 1n << (lo + j)), { op: 'tof', f, a: 0 })
    for (const x of [0n, 1n, 2n, -1n, -2n]) c.push(setr(1, (1n << hi) - (1n << (hi - p - 1n)) + x, 1n), { op: 'tof', f, a: 1 }, setr(1, (1n << hi) - (1n << (hi - p)) + x, 1n), { op: 'tof', f, a: 1 })
    out.push(c) }
  // ties and near-ties at every exponent, the fraction in lowest terms or not
  for (const [f, lo, hi] of [['f32', -153, 130], ['f64', -1078, 1026]]) { const P = FM[f][0]
    for (let e0 = lo; e0 < hi; e0 += 8) { const c = []
      for (let e = e0; e < e0 + 8; e++) { const r = BigInt((e * 40503) >>> 0), m = (1n << P) | 1n | (((r * r) % (1n << (P - 1n))) << 1n)
        for (const [t, u] of [[m, 1n], [m * 5n - 1n, 5n], [m * (1n << 40n) + 1n, 1n << 40n], [m + 2n, 1n]].slice(e & 1, 3 + (e & 1))) { const k = BigInt(e) - P; c.push(setr(0, (k > 0n ? t << k : t) * (e % 3 ? 1n : -1n), k < 0n ? u << -k : u), { op: 'tof', f, a: 0 }) } }
      out.push(c) } }
  // numerators and denominators of every length
  for (let n = 1; n <= 60; n++) { const c = []
    for (const k of [1, 2, 3, n, n + 1, n + 2, n + 31, 61 - n]) { const p = (1n << BigInt(32 * n)) - BigInt(n * k), q = (1n << BigInt(32 * k - 7)) + BigInt(2 * n + 1); c.push(setr(1, k % 2 ? p : -p, q), { op: 'tof', f: 'f64', a: 1 }, { op: 'tof', f: 'f32', a: 1 }) }
    out.push(c) }
  return out
}
module.exports = { id: 'R02', machine: 'rat', trace, fixed, count: t => t === 'quick' ? 6000 : 36000 }
