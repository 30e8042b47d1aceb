'use strict'
// precision, mode, mantissa/exponent, limits of the exponent range, privacy of values
const G = require('../gen/common')
const F = require('../gen/float')
const OPS = ['add', 'sub', 'mul', 'div']
const MAX = 2147483647, MIN = -2147483648
function trace(rng) {
  const c = [F.mk(rng, 0), F.mk(rng, 1), F.mk(rng, 2)]
  for (let i = 0; i < 14; i++) {
    const d = rng.below(4), a = rng.below(4), b = rng.below(4)
    c.push(...rng.wpick([[5, [{ op: 'setprec', d, n: rng.chance(0.05) ? 0 : F.prec(rng) }]], [3, [{ op: 'setmode', d, m: rng.below(6) }]], [3, [{ op: 'mantexp', d, a }]], [3, [{ op: 'setme', d, a, k: rng.int(-200, 200) }]], [2, [{ op: 'deep', d, a }]], [2, [{ op: 'o1', f: rng.pick(['neg', 'abs']), d, a }]],
      [2, [{ op: 'class', a }]], [3, [{ op: 'a2', f: rng.pick(OPS), d, b }]], [2, [{ op: 'o2', f: rng.pick(OPS), d, a, b }]], [3, [F.mk(rng, d)]], [1, F.special(rng, d)]]))
  }
  // the ends of the exponent range: only * / and set_mant_exp, no alignment shifts
  for (let i = 0; i < 4; i++) {
    const hi = rng.chance(0.5), s = F.mant(rng), L = s.toString(2).length, e = hi ? MAX - rng.int(-2, 3) : MIN + rng.int(-2, 3)
    c.push({ op: 'mk', d: 0, s: G.toLimbs(s), k: rng.below(2), n: Math.max(L, 1), m: rng.below(6), c: 0 }, { op: 'setme', d: 1, a: 0, k: e - L }, { op: 'class', a: 1 }, { op: 'mantexp', d: 2, a: 1 })
    c.push({ op: 'mk', d: 3, s: G.toLimbs(F.mant(rng)), k: rng.below(2), n: 70, m: 0, c: rng.int(-140, 10) }, { op: 'o2', f: 'mul', d: 2, a: 1, b: 3 }, { op: 'o2', f: 'div', d: 2, a: 1, b: 3 }, { op: 'o2', f: 'mul', d: 2, a: 1, b: 1 }, { op: 'o2', f: 'div', d: 2, a: 3, b: 1 }, { op: 'o2', f: 'div', d: 2, a: 1, b: 1 }, { op: 'cmp', a: 1, b: 3 }, { op: 'setprec', d: 1, n: rng.int(1, Math.max(1, L)) }, { op: 'cmp', a: 1, b: 1 }, { op: 'tof', f: 'f64', a: 1 }, { op: 'trunc', f: 'i64', a: 1 })
  }
  return c
}
function fixed() {
  const out = []
  // every significand up to 9 bits to every smaller precision in every mode
  for (let m = 0; m < 6; m++) for (let lo = 1; lo < 512; lo += 64) { const c = []
    for (let v = lo; v < lo + 64; v += (lo > 200 ? 5 : 1)) for (const n of [1, 2, 3, 5, 7]) c.push({ op: 'mk', d: 0, s: [v], k: v % 3 === 0 ? 1 : 0, n: 64, m, c: -2 }, { op: 'setprec', d: 0, n })
    out.push(c) }
  // word boundaries
  for (let m = 0; m < 6; m++) { const c = []
    for (const L of [32, 33, 64, 65, 96]) for (const n of [31, 32, 33, 63, 64, 65]) for (const t of [0n, 1n, -1n]) { const v = (1n << BigInt(L + 40)) - (1n << BigInt(Math.max(0, L + 40 - n - 1))) + t; c.push({ op: 'mk', d: 0, s: G.toLimbs(v), k: 0, n: 200, m, c: 0 }, { op: 'setprec', d: 0, n }) }
    out.push(c) }
  // every precision from every longer mantissa
  for (let n = 1; n <= 330; n++) { const c = []
    for (const [m, x] of [[0, 1 + n % 40], [n % 5 + 1, 33 + (n * 7) % 200], [0, 340], [(n + 2) % 5 + 1, 32]]) { const N = BigInt(n), X = BigInt(x), one = 1n << (N + X - 1n)
      for (const v of [one + (1n << (X - 1n)), one + 3n * (1n << (X - 1n)), one + (1n << (X - 1n)) + 1n, (one << 1n) - 1n, one + 1n, (one << 1n) - (1n << (X - 1n)), one + 1n + (1n << X)]) c.push({ op: 'mk', d: 0, s: G.toLimbs(v), k: n % 2, n: n + x + 1, m, c: -n }, { op: 'setprec', d: 0, n }) }
    out.push(c) }
  // every mantissa length to every kind of precision
  for (let n = 1; n <= 48; n++) { const c = []
    for (let i = 0; i < 8; i++) { const p = [1, 31, 32, 33, 16 * n, 16 * n + 1, 32 * n - 1, 32 * n - 33][i]; if (p < 1) continue
      const P = BigInt(32 * n), top = ((1n << BigInt(p)) - (i % 2 ? 1n : 1n << BigInt(p >> 1))) << (P - BigInt(p)), h = P - BigInt(p) > 0n ? 1n << (P - BigInt(p) - 1n) : 0n
      for (const t of [0n, h, h + 1n, h - 1n, 1n, h && (h << 1n) - 1n]) if (t >= 0n) c.push({ op: 'mk', d: 0, s: G.toLimbs(top + t), k: (n + i) % 2, n: 32 * n, m: (n + i) % 6, c: -i }, { op: 'setprec', d: 0, n: p }) }
    out.push(c) }
  // exact values and exact ties at the limb limits, every pair of lengths
  for (let n = 2; n <= 40; n++) { const c = []
    for (let j = 1; j < n; j++) for (const d of [0, 31]) { const r = 32 * j - d - 1, p = 32 * n - r - 1, R = BigInt(r), t = (1n << BigInt(32 * n - 1)) | (3n << (R + 1n)) & ((1n << BigInt(32 * n)) - 1n)
      c.push({ op: 'mk', d: 0, s: G.toLimbs(d ? (t & ~(1n << (R + 1n))) | 1n << R : t), k: n % 2, n: 32 * n, m: d ? 0 : 4, c: 0 }, { op: 'setprec', d: 0, n: p }, { op: 'mk', d: 0, s: G.toLimbs(d ? t : (t & ~(1n << (R + 1n))) | 1n << R), k: n % 2, n: 32 * n, m: d ? 5 : 0, c: 0 }, { op: 'setprec', d: 0, n: p }) }
    for (let i = 0; i < c.length; i += 80) out.push(c.slice(i, i + 80)) }
  // exponents at and beside every power of two, reached by a product, a quotient and set_mant_exp
  for (let b = 5; b <= 30; b++) { const c = [{ op: 'mk', d: 0, s: [5], k: b % 2, n: 40, m: b % 6, c: 0 }, { op: 'mk', d: 1, s: [3], k: 0, n: 2, m: 0, c: 0 }]
    for (const s of [1, -1]) for (const t of [-3, -2, -1, 0, 1]) { const e = s * 2 ** b + t; c.push({ op: 'setme', d: 2, a: 0, k: e }, { op: 'mantexp', d: 3, a: 2 }, { op: 'o2', f: 'mul', d: 3, a: 2, b: 1 }, { op: 'o2', f: 'div', d: 3, a: 2, b: 1 }, { op: 'cmp', a: 2, b: 3 }) }
    out.push(c) }
  for (let b = 31; b < 63; b++) { const c = []; for (const t of [-1n, 0n, 1n]) c.push({ op: 'mk', d: 0, s: [5], k: 0, n: 5, m: 0, c: 7 }, { op: 'setprec', d: 0, n: String((1n << BigInt(b)) + t) }, { op: 'setme', d: 1, a: 0, k: String((1n << BigInt(b)) + t) }, { op: 'setme', d: 1, a: 0, k: String(-(1n << BigInt(b)) + t) }); out.push(c) }
  for (const k of ['9223372036854775807', '-9223372036854775808', String(2 * MAX), String(2 * MIN)]) out.push([{ op: 'mk', d: 0, s: [5], k: 0, n: 5, m: 0, c: 7 }, { op: 'setme', d: 1, a: 0, k }, { op: 'mk', d: 0, s: [5], k: 1, n: 5, m: 0, c: -7 }, { op: 'setme', d: 1, a: 0, k }, { op: 'inf', d: 0, k: 0 }, { op: 'setme', d: 1, a: 0, k }, { op: 'default', d: 0 }, { op: 'setme', d: 1, a: 0, k }])
  out.push([{ op: 'mk', d: 0, s: [5], k: 0, n: 5, m: 0, c: 7 }, { op: 'setprec', d: 0, n: 4294967295 }, { op: 'class', a: 0 }, { op: 'setprec', d: 0, n: '18446744073709551615' }, { op: 'setprec', d: 0, n: 2 }])
  return out
}
module.exports = { id: 'F05', machine: 'float', trace, fixed, count: t => t === 'quick' ? 3600 : 30000 }
