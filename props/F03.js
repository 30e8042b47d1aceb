'use strict'
// Float conversions
const G = require('../gen/common')
const F = require('../gen/float')
const FM = { f32: [24n, 8n], f64: [53n, 11n] }
function bits(rng, f) {
  const [p, w] = FM[f], M = (1n << (p - 1n)) - 1n
  const ef = rng.pick([0n, 1n, (1n << w) - 2n, (1n << w) - 1n, (1n << (w - 1n)) - 1n, BigInt(rng.below(Number(1n << w)))])
  const m = rng.pick([0n, 1n, M, M >> 1n, rng.next() & M, 1n << BigInt(rng.below(Number(p - 1n)))])
  return ((rng.chance(0.4) ? 1n : 0n) << (p + w - 1n)) | ef << (p - 1n) | m
}
// on or beside a rounding boundary of the format, denormals included
function boundary(rng, f, d) {
  const [p, w] = FM[f]; const bias = Number(1n << (w - 1n)) - 1, P = Number(p)
  const e = rng.pick([-bias + 1, -bias + 2, bias, bias + 1, 0, -bias - rng.int(0, P + 2), rng.int(-bias - P, bias)])
  const extra = rng.int(0, 70)
  let v = (1n << (p - 1n)) | (rng.next() & ((1n << (p - 1n)) - 1n))
  if (rng.chance(0.3)) v = (1n << p) - 1n
  if (rng.chance(0.2)) v = 1n << (p - 1n)
  v = (v << 1n) | BigInt(rng.below(2))
  v <<= BigInt(extra)
  if (extra && rng.chance(0.6)) v += rng.chance(0.5) ? 1n : -1n
  if (e < -bias + 1 && rng.chance(0.5)) { const k = BigInt(Math.min(P, -bias + 1 - e)); v = ((v >> (k + BigInt(extra))) << (k + BigInt(extra))) + rng.pick([0n, 1n, 1n << (k + BigInt(extra) - 1n), (1n << (k + BigInt(extra) - 1n)) + 1n]) ; if (v <= 0n) v = 1n }
  const L = v.toString(2).length
  return { op: 'mk', d, s: G.toLimbs(v), k: rng.below(2), n: Math.max(1, L - (rng.chance(0.1) ? 5 : 0)), m: rng.below(6), c: e - L + 1 }
}
// structured significands of any length whose top bit lies at a limit of a format or of an integer type
const around = (rng, e) => e + rng.int(-2, 2)
function limit(rng, d) {
  const v = F.mant(rng), L = v.toString(2).length
  const e = around(rng, rng.pick([-150, -149, -126, 127, -1075, -1074, -1022, 1023, 63, 64, 64, 32, 52, 0]))
  return { op: 'mk', d, s: G.toLimbs(v), k: rng.below(2), n: L + rng.pick([0, 0, 1, 40]), m: rng.below(6), c: e - L + 1 }
}
const T = [['u8', 8, 0], ['u16', 16, 0], ['u32', 32, 0], ['u64', 64, 0], ['i8', 8, 1], ['i16', 16, 1], ['i32', 32, 1], ['i64', 64, 1]]
function trace(rng) {
  const c = []
  for (let i = 0; i < 4; i++) { const f = rng.pick(['f32', 'f64']); c.push({ op: 'fromf', f, d: 0, k: bits(rng, f) }, { op: 'tof', f: 'f32', a: 0 }, { op: 'tof', f: 'f64', a: 0 }, { op: 'trunc', f: rng.pick(['u64', 'i64']), a: 0 }) }
  for (let i = 0; i < 8; i++) { const f = rng.pick(['f32', 'f64']); c.push(boundary(rng, f, 1), { op: 'tof', f, a: 1 }, { op: 'tof', f: f === 'f32' ? 'f64' : 'f32', a: 1 }) }
  c.push({ op: 'big', f: 'nat', d: 2, s: G.toLimbs(G.nat(rng, rng.int(1, 5))), k: 0 }, { op: 'class', a: 2 }, { op: 'big', f: 'int', d: 2, s: G.toLimbs(G.nat(rng, rng.int(1, 5))), k: rng.below(2) }, { op: 'tof', f: 'f64', a: 2 })
  for (let i = 0; i < 3; i++) { const p = G.toLimbs(rng.chance(0.1) ? 0n : G.nat(rng, rng.int(1, 5))), q = G.toLimbs(G.nat(rng, rng.int(1, 5)) || 1n); c.push({ op: 'rat', d: 3, s: p.concat(q), n: p.length, k: rng.below(2) }, { op: 'class', a: 3 }) }
  for (let i = 0; i < 4; i++) c.push(limit(rng, 1), { op: 'tof', f: 'f32', a: 1 }, { op: 'tof', f: 'f64', a: 1 }, { op: 'trunc', f: 'u64', a: 1 }, { op: 'trunc', f: 'i64', a: 1 }, { op: 'class', a: 1 })
  // integers and halves around the i64/u64 limits
  const k = BigInt(rng.int(0, 70)); let v = (rng.pick([1n << 63n, 1n << 64n, 1n << 53n, 1n, rng.next()]) << k) + BigInt(rng.int(-2, 2)); if (v <= 0n) v = 1n
  c.push({ op: 'mk', d: 0, s: G.toLimbs(v), k: rng.below(2), n: 200, m: 0, c: -Number(k) }, { op: 'trunc', f: 'u64', a: 0 }, { op: 'trunc', f: 'i64', a: 0 }, { op: 'class', a: 0 })
  const [t, b, sg] = rng.pick(T), lo = sg ? -(1n << BigInt(b - 1)) : 0n, hi = (1n << BigInt(b - sg)) - 1n
  c.push({ op: 'cons', f: t, d: 1, k: rng.pick([lo, hi, 0n, lo + 1n, hi >> 1n, BigInt.asUintN(b - sg, rng.next())]) }, { op: 'trunc', f: 'i64', a: 1 }, { op: 'trunc', f: 'u64', a: 1 })
  c.push(F.mk(rng, 2), { op: 'class', a: 2 }, { op: 'tof', f: 'f64', a: 2 }, { op: 'trunc', f: 'u64', a: 2 }, { op: 'trunc', f: 'i64', a: 2 })
  return c
}
function fixed() {
  const out = []
  for (const [t, b, sg] of T) { const lo = sg ? -(1n << BigInt(b - 1)) : 0n, hi = (1n << BigInt(b - sg)) - 1n
    out.push([lo, hi, lo + 1n, hi - 1n, 0n, 1n].flatMap(k => [{ op: 'cons', f: t, d: 0, k }, { op: 'trunc', f: 'i64', a: 0 }, { op: 'trunc', f: 'u64', a: 0 }, { op: 'class', a: 0 }])) }
  for (let e = 61; e <= 66; e++) { const c = []
    for (const s of [1n, 3n, 5n, 7n, 9n, 11n, 13n, 15n, (1n << 62n) + 1n, (1n << 63n) - 1n, (1n << 63n) + 1n, (1n << 64n) - 1n, (1n << 64n) + 1n]) for (const k of [0, 1]) c.push({ op: 'mk', d: 0, s: G.toLimbs(s), k, n: 70, m: 0, c: e - s.toString(2).length }, { op: 'trunc', f: 'i64', a: 0 }, { op: 'trunc', f: 'u64', a: 0 }, { op: 'class', a: 0 })
    out.push(c) }
  for (const f of ['f32', 'f64']) { const [p, w] = FM[f]; const lo = f === 'f32' ? -149 : -1074, c = []
    // every position of a few significands around the smallest denormal
    for (const s of [1n, 3n, 5n, 7n, 9n, 0x80000001n, (1n << 63n) + 1n]) for (let e = -4; e <= 4; e++) for (const k of [0, 1]) c.push({ op: 'mk', d: 0, s: G.toLimbs(s), k, n: 64, m: 0, c: lo + e - s.toString(2).length + 1 }, { op: 'tof', f, a: 0 })
    for (const x of [-1n, 0n, 1n]) { const v = (((1n << (p + 1n)) - 1n) << 20n) + x; for (const k of [0, 1]) c.push({ op: 'mk', d: 0, s: G.toLimbs(v), k, n: 100, m: 0, c: Number(1n << (w - 1n)) - v.toString(2).length }, { op: 'tof', f, a: 0 }) }
    for (let i = 0; i < c.length; i += 40) out.push(c.slice(i, i + 40)) }
  // ties and near-ties at every exponent of the formats, with short and long significands
  for (const [f, lo, hi] of [['f32', -153, 131], ['f64', -1078, 1027]]) { const P = FM[f][0]
    for (let e0 = lo; e0 < hi; e0 += 8) { const c = []
      for (let e = e0; e < e0 + 8; e++) { const r = BigInt((e * 40503) >>> 0), m = (1n << P) | 1n | (((r * r) % (1n << (P - 1n))) << 1n), X = BigInt(1 + (e & 127))
        for (const v of [m, (m << X) + 1n, (m << X) - 1n, (1n << (P + 1n)) - 1n]) c.push({ op: 'mk', d: 0, s: G.toLimbs(v), k: e & 1, n: v.toString(2).length, m: (e & 1023) % 6, c: e - v.toString(2).length }, { op: 'tof', f, a: 0 }) 
        c.push({ op: 'fromf', f, d: 1, k: (BigInt(Math.max(0, e - lo)) & ((1n << FM[f][1]) - 1n)) << (P - 1n) | (r & 0x7fffffn) }, { op: 'tof', f, a: 1 }) }
      out.push(c) } }
  // denormals of every width, the deciding bit far below
  for (const [f, lo, P] of [['f32', -149, 24], ['f64', -1074, 53]]) for (let w0 = 1; w0 <= P; w0 += 4) { const c = []
    for (let w = w0; w < w0 + 4 && w <= P; w++) for (const X of [3n, 90n, 150n]) { const one = 1n << BigInt(w - 1), q = (one | one / 3n | 1n) ^ BigInt(w > 2 ? w & 1 : 0), v = (2n * q + 1n) << X
      for (const t of [0n, 1n, -1n, 1n << (X - 1n), -(1n << (X - 1n))]) c.push({ op: 'mk', d: 0, s: G.toLimbs(v + t), k: w & 1, n: w + 2 + Number(X), m: 0, c: lo - 1 - Number(X) }, { op: 'tof', f, a: 0 }) }
    out.push(c) }
  // fractions whose numerator or denominator has any number of bits
  for (let b = 60; b <= 1060; b += 10) { const c = []
    for (let k = b; k < b + 10; k++) { const z = G.toLimbs((1n << BigInt(k - 1)) + 1n), s = [BigInt(k % 5 + 2)]; const [p, q] = k % 4 === 0 ? [z, s] : [s, z]; c.push({ op: 'rat', d: 3, s: p.concat(q), n: p.length, k: k % 2 }, { op: 'class', a: 3 }) 
      if (k % 4 === 0) c.push({ op: 'rat', d: 2, s: s.concat(z), n: s.length, k: 0 }) }
    out.push(c) }
  // integers of every length, and ratios of them
  for (let n = 1; n <= 60; n++) { const c = [], v = (1n << BigInt(32 * n - n % 5)) - BigInt(3 * n)
    c.push({ op: 'big', f: n % 2 ? 'nat' : 'int', d: 2, s: G.toLimbs(v), k: n % 2 ? 0 : 1 }, { op: 'class', a: 2 }, { op: 'tof', f: 'f64', a: 2 }, { op: 'tof', f: 'f32', a: 2 }, { op: 'trunc', f: 'u64', a: 2 }, { op: 'trunc', f: 'i64', a: 2 })
    for (const k of [1, 2, 3, n, 61 - n]) { const p = G.toLimbs(v), q = G.toLimbs((1n << BigInt(32 * k - 9)) + BigInt(2 * n - 1)); c.push({ op: 'rat', d: 3, s: p.concat(q), n: p.length, k: k % 2 }, { op: 'class', a: 3 }) }
    out.push(c) }
  for (let e = -3; e <= 68; e++) { const c = []
    for (const s of [1n, 3n, (1n << 20n) + 1n, (1n << 33n) - 1n, (1n << 63n) + 1n, (1n << 63n) - 1n, (1n << 64n) - 1n, (1n << 64n) + 1n, (1n << 100n) - 1n, (1n << 95n) + 1n]) for (const k of [0, 1]) c.push({ op: 'mk', d: 0, s: G.toLimbs(s), k, n: 110, m: 0, c: e - s.toString(2).length }, { op: 'trunc', f: 'i64', a: 0 }, { op: 'trunc', f: 'u64', a: 0 }, { op: 'class', a: 0 })
    out.push(c) }
  return out
}
module.exports = { id: 'F03', machine: 'float', trace, fixed, count: t => t === 'quick' ? 4500 : 27000 }
