'use strict'
// Rat: field arithmetic in lowest terms, order, privacy of values
const G = require('../gen/common')
const M = require('../lib/model')
const F = ['add', 'sub', 'mul', 'div']
const setr = (d, p, q) => { const a = G.toLimbs(p < 0n ? -p : p), b = G.toLimbs(q < 0n ? -q : q); return { op: 'set', d, s: a.concat(b), n: a.length, k: p < 0n ? 1 : 0, m: q < 0n ? 1 : 0 } }
const gcdy = rng => rng.pick([1n, 2n, 6n, 1n << 33n, 4294967295n, 3n ** 30n])
function rat(rng, d, len = G.smallLen) {
  if (rng.chance(0.15)) return setr(d, BigInt(rng.int(-3, 3)), BigInt(rng.pick([1, -1, 2, -4, 3])))
  const g = gcdy(rng)
  let q = G.zint(rng, len(rng)); if (q === 0n) q = 1n
  return setr(d, (rng.chance(0.08) ? 0n : G.zint(rng, len(rng))) * g, q * g)
}
const I = 1n << 63n
const EDGE = [0n, 1n, -1n, I - 1n, -I, -I + 1n, 6n, -15n, 4294967296n, -4294967296n]
function trace(rng) {
  const c = [rat(rng, 0), rat(rng, 1)]
  if (rng.chance(0.2)) c.push({ op: 'clone', d: 1, a: 0 })
  if (rng.chance(0.15)) c.push({ op: 'o1', f: rng.pick(['neg', 'inv', 'abs']), d: 1, a: 0 })
  for (const f of F) c.push({ op: 'o2', f, d: 3, a: 0, b: 1 })
  c.push({ op: 'cmp', a: 0, b: 1 }, { op: 'class', a: 0 }, { op: 'class', a: 3 }, { op: 'o1', f: 'inv', d: 2, a: 0 }, { op: 'cmp', a: 2, b: 0 }, { op: 'frac', d: 2, k: rng.pick(EDGE), n: rng.pick(EDGE) })
  c.push({ op: 'cons', f: 'i128', d: 2, k: rng.pick(EDGE) * rng.pick([1n, -1n, 1n << 60n]) }, { op: 'consbig', f: rng.pick(['nat', 'int']), d: 3, s: G.toLimbs(G.nat(rng, 3)), k: 0 })
  for (let i = 0; i < 14; i++) {
    const d = rng.below(4), a = rng.below(4), b = rng.below(4)
    c.push(rng.wpick([[4, { op: 'o2', f: rng.pick(F), d, a, b }], [5, { op: 'a2', f: rng.pick(F), d, b }], [3, { op: 'clone', d, a }], [1, { op: 'deep', d, a }],
      [2, { op: 'o1', f: rng.pick(['neg', 'abs', 'inv']), d, a }], [2, { op: 'cmp', a, b }], [1, { op: 'class', a }], [1, { op: 'setnan', d, k: rng.below(2) }], [2, rat(rng, d)]]))
  }
  return c
}
function fixed() {
  const out = []
  const V = [[0n, 1n], [1n, 1n], [-1n, 1n], [1n, 2n], [-1n, 2n], [3n, 4n], [-6n, 4n], [4294967296n, 3n], [-7n, 4294967296n], [0n, -5n]]
  for (const [p, q] of V) { const c = []
    for (const [x, y] of V) { c.push(setr(0, p, q), setr(1, x, y), { op: 'cmp', a: 0, b: 1 })
      for (const f of F) c.push({ op: 'o2', f, d: 2, a: 0, b: 1 }, { op: 'class', a: 2 })
      for (const f of F) if (!(f === 'div' && x === 0n)) c.push({ op: 'clone', d: 3, a: 0 }, { op: 'a2', f, d: 3, b: 1 }) }
    out.push(c) }
  for (const k of EDGE) { const c = []; for (const n of EDGE) c.push({ op: 'frac', d: 0, k, n }, { op: 'class', a: 0 }); out.push(c) }
  for (const f of F) out.push([setr(0, 5n, 3n), { op: 'setnan', d: 1, k: 0 }, { op: 'clone', d: 2, a: 0 }, { op: 'a2', f, d: 0, b: 1 }, { op: 'clone', d: 3, a: 2 }, { op: 'o2', f, d: 3, a: 2, b: 1 }, { op: 'o2', f, d: 3, a: 1, b: 2 }, { op: 'a2', f, d: 1, b: 2 }, { op: 'o1', f: 'inv', d: 3, a: 1 }, { op: 'o1', f: 'neg', d: 3, a: 1 }, { op: 'o1', f: 'abs', d: 3, a: 1 }, { op: 'cmp', a: 1, b: 1 }, { op: 'class', a: 1 }])
  const T = [['u8', 255n], ['u16', 65535n], ['u32', 4294967295n], ['u64', 2n * I - 1n], ['usize', 2n * I - 1n], ['u128', (1n << 128n) - 1n], ['i8', -128n], ['i16', -32768n], ['i32', -2147483648n], ['i64', -I], ['isize', -I], ['i128', -(1n << 127n)]]
  // common factors, shared denominators and near-equal values at every size
  for (let n = 1; n <= 70; n++) { const c = [], B = BigInt(32 * n), g = [(1n << B) - 1n, (1n << (B - 1n)) + 1n, 1n << (B - 1n)][n % 3], h = 1n << BigInt(n * 29 % 97), s = n % 2 ? 1n : -1n
    c.push(setr(0, 15n * g * s, 35n * g), setr(0, 6n * h, 4n * h * g * s), setr(1, 10n * s, 21n * g), setr(2, g, 3n * h), setr(3, 5n * s, 6n * g))
    for (const [a, b] of [[1, 3], [3, 1], [1, 2], [2, 3]]) for (const f of F) if (n <= 24 || n % 4 === a || a + b === 4) c.push({ op: 'o2', f, d: 0, a, b })
    const x = g * 7n + 1n, y = g + 3n
    c.push(setr(1, x * s, y), setr(2, (x * 5n + 1n) * s, y * 5n), setr(3, x * s * h, y * h), { op: 'cmp', a: 1, b: 2 }, { op: 'cmp', a: 2, b: 3 }, { op: 'cmp', a: 1, b: 3 }, { op: 'o1', f: 'inv', d: 1, a: 2 }, { op: 'cmp', a: 1, b: 2 }, { op: 'a2', f: 'sub', d: 2, b: 3 }, { op: 'class', a: 2 })
    for (const m of [1, 2, 3, 5, n]) { const Q = 1n << BigInt(32 * m - 3); c.push(setr(1, (x * 9n + 2n) * s, Q + 1n), setr(2, BigInt(n) * s, Q + 5n), setr(3, (1n << BigInt(16 * n)) + 1n, Q - 1n), { op: 'cmp', a: 1, b: 2 }, { op: 'cmp', a: 2, b: 1 }, { op: 'cmp', a: 3, b: 1 }, { op: 'cmp', a: 2, b: 3 }) 
      if (m === 1 + n % 5) for (const f of F) c.push({ op: 'o2', f, d: 0, a: 1, b: 3 }) }
    out.push(c) }
  for (let n = 1; n <= 320; n++) out.push([setr(0, 3n << BigInt(n * 16), 5n << BigInt(n * 3)), setr(1, -7n, 1n << BigInt(n + 64)), setr(2, 9n, 5n << BigInt(n)), { op: 'o2', f: 'add', d: 3, a: 1, b: 2 }, { op: 'o2', f: 'mul', d: 3, a: 1, b: 0 }, { op: 'o2', f: 'div', d: 3, a: 1, b: 2 }, { op: 'cmp', a: 1, b: 2 }])
  out.push(T.flatMap(([f, k]) => [{ op: 'cons', f, d: 0, k }, { op: 'cons', f, d: 1, k: 0n }, { op: 'cmp', a: 0, b: 1 }]))
  return out
}
module.exports = { id: 'R01', machine: 'rat', trace, fixed, count: t => t === 'quick' ? 5000 : 40000, setr, rat,
  model: (tier, seed) => M.mbt('rat', 'rat', seed, tier === 'quick' ? 200 : 2000, 25, s => M.ratObs(s.sys), s => M.evCmd(s.ev)) }
