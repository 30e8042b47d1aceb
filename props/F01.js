'use strict'
// Float + - * / : correct rounding at every precision and mode, truthful accuracy
const G = require('../gen/common')
const F = require('../gen/float')
const M = require('../lib/model')
const OPS = ['add', 'sub', 'mul', 'div']
function trace(rng) {
  const c = []
  for (let i = 0; i < 6; i++) {
    const x = F.mk(rng, 0), y = F.partner(rng, x, 1)
    c.push(x, y)
    for (const f of OPS) c.push({ op: 'o2', f, d: 2, a: 0, b: 1 })
    c.push({ op: 'deep', d: 3, a: 0 }, { op: 'a2', f: rng.pick(OPS), d: 3, b: 1 })
    if (rng.chance(0.3)) c.push({ op: 'a2', f: rng.pick(OPS), d: 0, b: 0 }, { op: 'o2', f: rng.pick(OPS), d: 1, a: 2, b: 2 }, { op: 'a2', f: rng.pick(OPS), d: 3, b: 2 })
  }
  return c
}
// every mode, every small precision, every pair of 4-bit significands at a few exponent offsets
function fixed() {
  const out = []
  for (let m = 0; m < 6; m++) for (let n = 1; n <= 4; n++) for (let x = 1; x < 16; x += 2) {
    const c = []
    for (let y = 1; y < 16; y += 2) for (const [k, j] of [[0, 0], [0, 1], [1, 0]]) { const e = (x * 7 + y * 3 + n) % 7 - 3
      c.push({ op: 'mk', d: 0, s: [x], k, n: Math.max(n, 4), m, c: e }, { op: 'setprec', d: 0, n }, { op: 'mk', d: 1, s: [y], k: j, n: 5, m: (m + 1) % 6, c: 0 })
      for (const f of OPS) c.push({ op: 'o2', f, d: 2, a: 0, b: 1 }) }
    out.push(c)
  }
  // every precision: ties, just beside ties, carries through the whole mantissa, exact results
  for (let n = 1; n <= 330; n++) for (const m of [0, n % 5 + 1]) {
    const N = BigInt(n), one = 1n << (N - 1n), c = [], sg = n % 2
    const set = (d, v, e, k) => c.push({ op: 'mk', d, s: G.toLimbs(v), k, n: Math.max(n, v.toString(2).length), m, c: e }, { op: 'setprec', d, n })
    for (const v of [one, (one << 1n) - 1n, one | one / 3n]) {
      set(0, v, 0, sg)
      for (const [w, e] of [[1n, -1], [(1n << 70n) + 1n, -71], [(1n << 70n) - 1n, -71], [3n, -2]]) {
        c.push({ op: 'mk', d: 1, s: G.toLimbs(w), k: sg, n: 80, m: 0, c: e }, { op: 'o2', f: 'add', d: 2, a: 0, b: 1 })
        if (w === 1n || m) c.push({ op: 'o2', f: 'sub', d: 2, a: 0, b: 1 })
      }
      c.push({ op: 'mk', d: 1, s: [3], k: 0, n: 2, m: 0, c: n % 7 }, { op: 'o2', f: 'mul', d: 2, a: 0, b: 1 }, { op: 'o2', f: 'div', d: 3, a: 0, b: 1 }, { op: 'o2', f: 'div', d: 3, a: 2, b: 1 })
    }
    out.push(c)
  }
  // every exponent gap
  for (let g = 1; g <= 420; g++) { const n = [3, 32, 53, 64, 100, 160][g % 6], m = g % 6, c = []
    for (const [k, j] of [[0, 0], [0, 1], [1, 0]]) for (const w of [1n, (1n << 34n) - 1n]) { const L = w.toString(2).length
      c.push({ op: 'mk', d: 0, s: G.toLimbs((1n << BigInt(n)) - (w > 1n ? 1n : 1n << BigInt(n >> 1))), k, n: Math.max(n, 2), m, c: g - n }, { op: 'mk', d: 1, s: G.toLimbs(w), k: j, n: L, m: 5 - m, c: -L })
      for (const f of ['add', 'sub']) c.push({ op: 'o2', f, d: 2, a: 0, b: 1 }); c.push({ op: 'o2', f: 'sub', d: 2, a: 1, b: 0 }) }
    out.push(c) }
  // significands of every length against precisions of every length
  for (let n = 1; n <= 36; n++) for (const l of [1, 2, 3, n, n + 1, 2 * n, 37 - n]) { const m = (n + l) % 6, c = [], v = (1n << BigInt(32 * n)) - BigInt(2 * n + 1), w = (1n << BigInt(32 * l - 1)) + 1n
    c.push({ op: 'mk', d: 0, s: G.toLimbs(v), k: n % 2, n: 32 * n, m, c: 0 }, { op: 'mk', d: 1, s: G.toLimbs(w), k: l % 2, n: 32 * l, m: 0, c: 32 * (n - l) + 3 })
    for (const f of OPS) c.push({ op: 'o2', f, d: 2, a: 0, b: 1 }, { op: 'o2', f, d: 2, a: 1, b: 0 })
    c.push({ op: 'o2', f: 'mul', d: 2, a: 0, b: 1 }, { op: 'o2', f: 'div', d: 3, a: 2, b: 1 }, { op: 'mk', d: 3, s: G.toLimbs(v), k: 0, n: 32 * n, m, c: 5 }, { op: 'setprec', d: 3, n: 16 * n + 1 }, { op: 'a2', f: OPS[(n + l) % 4], d: 3, b: 1 })
    out.push(c) }
  // quotients that miss the middle of two neighbours by the smallest possible remainder
  for (let p = 3; p <= 330; p++) { const c = [], P = BigInt(p), top = 1n << (P - 1n), m = p % 3 ? 0 : 3
    for (const [l, r] of [[p, 1n], [p, -1n], [Math.max(3, p >> 1), 1n], [Math.max(3, p >> 1), -1n]]) { const L = BigInt(l)
      let y = (1n << (L - 1n)) + ((1n << (L - 1n)) / 3n) | 1n, x = 0n
      for (let i = 0; i < 12 && 2n * x < y; i++, y += 2n) { if (y >> L) break; const v = G.inv((1n << (P + 1n)) % y, y); if (v !== null) x = r > 0n ? v : y - v }
      y -= 2n
      if (2n * x < y || x === 0n) continue
      c.push({ op: 'mk', d: 0, s: G.toLimbs(x), k: p % 2, n: p, m, c: -l }, { op: 'mk', d: 1, s: G.toLimbs(y), k: 0, n: l, m: 1, c: 3 }, { op: 'o2', f: 'div', d: 2, a: 0, b: 1 }) }
    if (c.length) out.push(c) }
  // exact products and quotients for every pair of significand lengths
  for (let n = 1; n <= 32; n++) { const c = []
    for (let l = 1; l <= 32; l++) { const v = (1n << BigInt(32 * n)) - BigInt(2 * l + 2), w = (1n << BigInt(32 * l - 1)) + BigInt(2 * n + 1)
      c.push({ op: 'mk', d: 0, s: G.toLimbs(v), k: n % 2, n: 32 * (n + l), m: (n + l) % 6, c: 0 }, { op: 'mk', d: 1, s: G.toLimbs(w), k: l % 2, n: 32 * l, m: 0, c: l }, { op: 'o2', f: 'mul', d: 2, a: 0, b: 1 }, { op: 'o2', f: 'div', d: 3, a: 2, b: 1 }) }
    out.push(c.slice(0, 64), c.slice(64)) }
  // operands whose exponents are far apart
  for (const far of [900, 3100, 6200, 13000, 26000, 66000]) for (let m = 0; m < 6; m++) {
    const c = []
    for (const [k, j] of [[0, 0], [0, 1], [1, 0]]) {
      c.push({ op: 'mk', d: 0, s: [5 + m], k, n: 3 + 31 * m, m, c: far }, { op: 'mk', d: 1, s: [9], k: j, n: 10, m: 5 - m, c: -m })
      for (const f of ['add', 'sub']) c.push({ op: 'o2', f, d: 2, a: 0, b: 1 }, { op: 'o2', f, d: 2, a: 1, b: 0 }, { op: 'deep', d: 3, a: m % 2 }, { op: 'a2', f, d: 3, b: 1 - m % 2 })
    }
    out.push(c)
  }
  return out
}
module.exports = { id: 'F01', machine: 'float', trace, fixed, count: t => t === 'quick' ? 3000 : 40000,
  model: (tier, seed) => M.mbt('float', 'float', seed, tier === 'quick' ? 200 : 2000, 25, s => M.floatObs(s.sys), s => M.evCmd(s.ev), { view: M.floatView }) }
