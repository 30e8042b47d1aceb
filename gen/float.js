'use strict'
const G = require('./common')
const PREC = [1, 2, 3, 4, 5, 7, 8, 11, 24, 31, 32, 33, 40, 53, 63, 64, 65, 95, 96, 97, 113, 128, 129, 200]
const prec = rng => rng.chance(0.8) ? rng.pick(PREC) : rng.chance(0.9) ? rng.int(1, 260) : rng.int(200, 1500)
// mantissa integers whose tails decide rounding: long runs of ones/zeros, one bit far down
function mant(rng) {
  const n = BigInt(rng.int(1, rng.chance(0.97) ? rng.pick([8, 40, 70, 140, 220]) : 1200))
  const one = 1n << (n - 1n)
  switch (rng.below(6)) {
    case 0: return one
    case 1: return (one << 1n) - 1n
    case 2: return one | 1n
    case 3: return (one << 1n) - (1n << BigInt(rng.below(Number(n))))
    case 4: return one | (one >> BigInt(rng.below(Number(n)))) | (rng.chance(0.5) ? 1n : 0n)
    default: return G.nat(rng, rng.int(1, 6)) || 1n
  }
}
const mk = (rng, d, o) => ({ op: 'mk', d, s: G.toLimbs(mant(rng)), k: rng.chance(0.5) ? 1 : 0, n: prec(rng), m: rng.below(6), c: rng.chance(0.6) ? rng.int(-40, 40) : rng.chance(0.9) ? rng.int(-300, 300) : rng.int(-3000, 3000), ...o })
function special(rng, d) {
  return rng.wpick([[2, [{ op: 'default', d }]], [2, [{ op: 'default', d }, { op: 'o1', f: 'neg', d, a: d }]], [2, [{ op: 'inf', d, k: 0 }]], [2, [{ op: 'inf', d, k: 1 }]], [1, [{ op: 'nan', d, k: rng.below(3) }]],
    [1, [{ op: 'mk', d, s: [0], k: 0, n: prec(rng), m: rng.below(6), c: 0 }]], [1, [{ op: 'mk', d, s: [0], k: 0, n: prec(rng), m: rng.below(6), c: 0 }, { op: 'o1', f: 'neg', d, a: d }]]])
}
// y close to x: same exponent and shared leading bits (cancellation), or far below (sticky)
function partner(rng, x, d) {
  const v = G.val(x.s.map(BigInt)), L = v.toString(2).length
  const y = mk(rng, d)
  switch (rng.below(5)) {
    case 0: return { ...y, s: G.toLimbs(G.near(rng, v) || 1n), c: x.c }
    case 1: return { ...y, s: G.toLimbs(v), c: x.c, k: x.k ^ rng.below(2) }
    case 2: { const b = BigInt(rng.chance(0.95) ? rng.int(1, 120) : rng.int(120, 900)); return { ...y, s: G.toLimbs((v << b) + BigInt(rng.int(-1, 1))), c: x.c - Number(b), n: L + Number(b) + 3 } }
    case 3: return { ...y, s: [1n], c: x.c + L - 1 - x.n - rng.int(-2, 3) }
    default: return y
  }
}
module.exports = { PREC, prec, mant, mk, special, partner }
