'use strict'
// products over ranges, binomials, squares, signed random numbers
const G = require('../gen/common')
const MAX = (1n << 63n) - 1n, MIN = -(1n << 63n)
const script = rng => rng.chance(0.5) ? [] : Array.from({ length: rng.int(1, 12) }, () => rng.wpick([[3, 0], [2, 1], [3, 0xffffffff], [4, rng.u32()], [1, -1]]))
function trace(rng) {
  const c = []
  for (let j = 0; j < 4; j++) {
    const n = BigInt(rng.wpick([[4, rng.int(0, 12)], [2, rng.int(12, 80)], [1, rng.chance(0.1) ? rng.int(80, 700) : rng.int(12, 100)]]))
    const base = rng.wpick([[3, BigInt(rng.int(-40, 40))], [2, BigInt(rng.u32())], [2, -BigInt(rng.u32())], [1, BigInt.asIntN(64, rng.next())], [1, MIN], [1, MAX - n], [1, -n], [1, MIN + BigInt(rng.below(4))]])
    let hi = base + n; if (hi > MAX) hi = MAX
    c.push({ op: 'mulrange', d: rng.below(4), k: base, n: hi })
    if (rng.chance(0.1)) c.push({ op: 'mulrange', d: rng.below(4), k: hi, n: base })
    const N = BigInt(rng.wpick([[4, rng.int(0, 30)], [2, rng.int(0, 300)], [1, rng.u32()], [1, rng.next() >> BigInt(rng.int(1, 31))], [1, rng.chance(0.1) ? rng.int(300, 1500) : rng.int(60, 300)]]))
    const K = rng.chance(0.5) && N < 1600n ? BigInt(rng.int(0, Number(N) + 2)) : rng.chance(0.5) ? BigInt(rng.int(0, 30)) : N >= 25n ? N - BigInt(rng.int(0, 25)) : N
    c.push({ op: 'binomial', d: rng.below(4), k: N, n: K })
    const x = G.zint(rng, rng.chance(0.9) ? rng.int(1, 5) : G.smallLen(rng))
    c.push(G.setz(0, x), { op: 'o1', f: 'sqr', d: 1, a: 0 }, { op: 'random', d: 2, a: 0, k: 1 + rng.u32(), s: script(rng) }, { op: 'q1', f: 'class', a: 2 })
  }
  if (rng.chance(0.15)) c.push(G.setz(0, G.zint(rng, rng.chance(0.7) ? rng.int(16, 50) : rng.int(40, 180)))), c.push({ op: 'o1', f: 'sqr', d: 1, a: 0 })
  c.push(G.setz(0, BigInt(rng.int(-3, 3))), { op: 'random', d: rng.below(4), a: 0, k: 1 + rng.u32(), s: script(rng) })
  return c
}
function fixed() {
  const out = []
  for (let a = -9; a <= 9; a++) { const c = []; for (let b = -9; b <= 9; b++) c.push({ op: 'mulrange', d: 0, k: a, n: b }); out.push(c) }
  for (let n = 0; n <= 24; n++) { const c = []; for (let k = 0; k <= n + 3; k++) c.push({ op: 'binomial', d: 0, k: n, n: k }); out.push(c) }
  out.push([[MIN, MIN], [MIN, MIN + 1n], [MAX, MAX], [MAX - 1n, MAX], [MIN, 0n], [MIN, MAX], [0n, MAX], [MAX, MIN], [-1n, -1n], [-2n, -1n]].map(([k, n]) => ({ op: 'mulrange', d: 0, k, n })))
  for (let b = 3; b <= 330; b++) {
    const t = 1n << BigInt(b)
    out.push([t, 1n - t, t + t / 5n].map((v, j) => [G.setz(0, b % 2 ? v : -v), { op: 'randtop', a: 0, n: 400, k: 11 * b + j }]).reduce((x, y) => x.concat(y)))
  }
  return out
}
module.exports = { id: 'B06', machine: 'int', spec: 'bigint', trace, fixed, count: t => t === 'quick' ? 9000 : 54000 }
