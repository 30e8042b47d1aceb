'use strict'
// Float special values, signs of zero, order
const G = require('../gen/common')
const F = require('../gen/float')
const OPS = ['add', 'sub', 'mul', 'div']
const Q = a => [{ op: 'class', a }, { op: 'trunc', f: 'u64', a }, { op: 'trunc', f: 'i64', a }]
function any(rng, d) { return rng.chance(0.5) ? F.special(rng, d) : [F.mk(rng, d)] }
function trace(rng) {
  const c = [...any(rng, 0), ...any(rng, 1)]
  for (let i = 0; i < 12; i++) {
    const d = rng.below(4), a = rng.below(4), b = rng.below(4)
    c.push(...rng.wpick([[4, [{ op: 'o2', f: rng.pick(OPS), d, a, b }]], [4, [{ op: 'a2', f: rng.pick(OPS), d, b }]], [3, [{ op: 'cmp', a, b }]], [2, [{ op: 'class', a }]], [3, any(rng, d)],
      [1, [{ op: 'setmode', d, m: rng.below(6) }]], [1, [{ op: 'o1', f: rng.pick(['neg', 'abs']), d, a }]], [1, [{ op: 'setprec', d, n: rng.pick([0, 1, 10, 64, 100]) }]]]))
  }
  const x = F.mk(rng, 0), y = F.partner(rng, x, 1)
  c.push(x, y, { op: 'cmp', a: 0, b: 1 }, { op: 'cmp', a: 1, b: 0 }, { op: 'deep', d: 2, a: 0 }, { op: 'cmp', a: 2, b: 0 }, ...Q(0))
  return c
}
function fixed() {
  const S = [d => [{ op: 'default', d }], d => [{ op: 'default', d }, { op: 'o1', f: 'neg', d, a: d }], d => [{ op: 'inf', d, k: 0 }], d => [{ op: 'inf', d, k: 1 }], d => [{ op: 'nan', d, k: 0 }], d => [{ op: 'nan', d, k: 1 }], d => [{ op: 'nan', d, k: 2 }],
    d => [{ op: 'mk', d, s: [3], k: 0, n: 70, m: 0, c: 0 }], d => [{ op: 'mk', d, s: [5], k: 1, n: 3, m: 0, c: -1 }], d => [{ op: 'mk', d, s: [0], k: 0, n: 9, m: 0, c: 0 }]]
  const out = []
  for (let m = 0; m < 6; m++) for (const x of S) { const c = []
    for (const y of S) { c.push(...x(0), { op: 'setmode', d: 0, m }, ...y(1), { op: 'cmp', a: 0, b: 1 })
      for (const f of OPS) c.push({ op: 'o2', f, d: 2, a: 0, b: 1 }, { op: 'deep', d: 3, a: 0 }, { op: 'a2', f, d: 3, b: 1 }) }
    out.push(c) }
  for (const x of S) out.push([...x(0), ...Q(0), { op: 'o1', f: 'neg', d: 1, a: 0 }, ...Q(1), { op: 'o1', f: 'abs', d: 1, a: 1 }, ...Q(1), { op: 'tof', f: 'f32', a: 0 }, { op: 'tof', f: 'f64', a: 0 }])
  // integers and halves of every precision
  for (let n = 2; n <= 330; n += 3) { const c = []
    for (let p = n; p < n + 3; p++) for (const v of [(1n << BigInt(p)) - 1n, (1n << BigInt(p - 1)) + 1n, 1n << BigInt(p - 1)]) for (const e of [-p, -1, 0, 1, 1 - p]) c.push({ op: 'mk', d: 0, s: G.toLimbs(v), k: p % 2, n: p, m: p % 6, c: e }, { op: 'class', a: 0 })
    out.push(c) }
  // equal leading limbs, a difference further and further down
  for (let n = 1; n <= 40; n++) { const v = 1n << BigInt(32 * n + 5), c = []
    for (const [x, y] of [[v + 1n, v], [v << 3n, (v << 3n) - 1n], [v + 1n, v + 2n], [v, v]]) for (const k of [0, 1]) c.push({ op: 'mk', d: 0, s: G.toLimbs(x), k, n: 32 * n + 40, m: 0, c: -7 }, { op: 'mk', d: 1, s: G.toLimbs(y), k, n: 32 * n + 40, m: 0, c: -7 }, { op: 'cmp', a: 0, b: 1 }, { op: 'cmp', a: 1, b: 0 })
    out.push(c) }
  // one value held with more and with fewer limbs
  for (let n = 1; n <= 30; n++) { const c = []
    for (const x of [1, 2, 3, 7, n, 31 - n]) { const v = (5n << BigInt(32 * n - 3)) + 1n, X = BigInt(32 * x)
      for (const t of [0n, 1n, -1n]) c.push({ op: 'mk', d: 0, s: G.toLimbs(v), k: x % 2, n: 32 * (n + x), m: 0, c: x }, { op: 'mk', d: 1, s: G.toLimbs((v << X) + t), k: x % 2, n: 32 * (n + x), m: 0, c: x - 32 * x }, { op: 'cmp', a: 0, b: 1 }, { op: 'cmp', a: 1, b: 0 }, { op: 'o2', f: 'sub', d: 2, a: 0, b: 1 }) }
    out.push(c) }
  // accuracy is that of the last operation
  out.push([{ op: 'mk', d: 0, s: [15], k: 0, n: 64, m: 0, c: 0 }, { op: 'setprec', d: 0, n: 2 }, { op: 'default', d: 1 }, { op: 'o2', f: 'add', d: 2, a: 0, b: 1 }, { op: 'o2', f: 'sub', d: 2, a: 0, b: 1 }, { op: 'a2', f: 'add', d: 0, b: 1 }])
  return out
}
module.exports = { id: 'F02', machine: 'float', trace, fixed, count: t => t === 'quick' ? 10000 : 60000 }
