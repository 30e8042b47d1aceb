'use strict'
// random numbers below a bound; primality; prime generation
const G = require('../gen/common')
const MERS = [[89, 1], [107, 1], [127, 1], [521, 1], [607, 1]]
const CARM = [561n, 1105n, 1729n, 2465n, 2821n, 6601n, 8911n, 41041n, 825265n, 321197185n, 5394826801n, 232250619601n, 9746347772161n, 1436697831295441n, 60977817398996785n]
// strong pseudoprimes to several bases, Lucas pseudoprimes, squares of Wieferich primes
const PSP = [2047n, 1373653n, 25326001n, 3215031751n, 2152302898747n, 3474749660383n, 341550071728321n, 3825123056546413051n, 318665857834031151167461n,
  989n, 3239n, 5777n, 10877n, 27971n, 29681n, 30739n, 31631n, 39059n, 72389n, 73919n, 75077n, 323n, 377n, 1159n, 1829n, 3827n, 5459n, 9071n, 1093n * 1093n, 3511n * 3511n]
const BIGC = [[(1n << 61n) - 1n, (1n << 61n) - 1n], [(1n << 89n) - 1n, (1n << 107n) - 1n], [(1n << 127n) - 1n, (1n << 127n) - 1n], [(1n << 61n) - 1n, (1n << 127n) - 1n, (1n << 89n) - 1n], [59n, (1n << 127n) - 1n], [1000000007n, 1000000009n, 998244353n, 1000003n],
  [318665857834031151167461n, 3317044064679887385961981n]]
const { LATE, LATEC, CERT, PROTH, RIESEL, PROTHC } = require('../gen/primes')
const script = rng => rng.chance(0.5) ? [] : Array.from({ length: rng.int(1, 12) }, () => rng.wpick([[3, 0], [2, 1], [3, 0xffffffff], [4, rng.u32()], [1, -1]]))
function trace(rng, i, tier) {
  const c = []
  const seed = () => 1 + rng.u32()
  const pr = (v, g) => { c.push(G.setv(0, v), { op: 'prime', a: 0, n: rng.chance(0.8) ? rng.int(32, 40) : rng.int(0, 12), k: seed(), s: script(rng), g: g || [] }) }
  for (let j = 0; j < 6; j++) {
    let x = rng.chance(0.4) ? rng.pick([1n, 2n, 3n, 1n << 32n, (1n << 32n) + 1n, (1n << 64n) - 1n, 1n << 31n, 1n << 96n]) : G.nat(rng, rng.int(1, 5))
    c.push(G.setv(1, x), { op: 'random', d: 2, a: 1, k: seed(), s: script(rng) }, { op: 'clone', d: 3, a: 1 }, { op: 'random', d: rng.below(4), a: 3, k: seed(), s: script(rng) })
  }
  if (i % 5 === 0) { const n = rng.int(1, 70); c.push(G.setv(1, BigInt(n)), { op: 'randcover', a: 1, n: 60 * n + 200, k: seed() }) }
  if (i % 4 === 1) for (let j = 0; j < 3; j++) c.push(G.setv(1, rng.chance(0.4) ? (1n << BigInt(32 * rng.int(1, 9))) - 1n - BigInt(rng.below(2)) * rng.next() % 4294967296n : G.nat(rng, rng.int(1, 12))), { op: 'randtop', a: 1, n: 400, k: seed() })
  pr(rng.pick(CARM)); pr(rng.pick(PSP)); pr(rng.pick(LATE)); pr(rng.chance(0.5) ? rng.pick(LATEC) : rng.pick(LATE.filter(x => x < 1n << 35n)) ** 2n)
  { const t = BigInt(rng.int(20, 75)); pr(rng.chance(0.5) ? rng.pick(PROTH) : (BigInt(rng.u32()) << t) % 3317044064679887385961981n >> t << t | 1n); pr(rng.chance(0.7) ? rng.pick(RIESEL) : ((BigInt(rng.u32() | 1) << t) - 1n) % 3317044064679887385961981n) }
  if (i % 12 === 3) { const [N, a, q] = rng.pick(PROTHC); pr(N, [0n, a, ...q]) }
  if (i % 6 === 0) { const [N, a, q] = rng.pick(CERT.slice(0, rng.chance(0.8) ? 40 : CERT.length)); pr(N, [0n, a, ...q]) }
  { const x = G.nat(rng, rng.int(3, 6)) | 1n; if (x >= 3317044064679887385961981n) pr(x, [-1]) }
  for (let j = 0; j < 6; j++) pr(rng.next() >> BigInt(rng.int(1, 60)) | BigInt(rng.below(2)))
  pr((BigInt(rng.u32()) << 48n | rng.next() >> 20n) | 1n)
  { // semiprime with two close or equal factors
    const b = BigInt(rng.int(3, 0xfffff)); pr((2n * b + 1n) * (2n * b + 1n)); pr((6n * b + 1n) * (12n * b + 1n) * (18n * b + 1n)) }
  if (i % 8 === 0) { const m = rng.pick(i % 24 === 0 ? MERS : MERS.slice(0, 3)); pr((1n << BigInt(m[0])) - 1n, [m[0]]) }
  if (i % 3 === 0) { const f = rng.pick(BIGC); pr(f.reduce((a, b) => a * b, 1n), f) }
  if (i % 2 === 0) c.push({ op: 'genprime', d: 2, n: rng.chance(0.1) ? rng.below(3) : rng.int(2, 81), m: rng.chance(0.7) ? 20 : rng.int(0, 6), k: seed(), s: rng.chance(0.3) ? rng.pick([[0, 0xffffffff, 0, 0xffffffff], [-1, 5, -1, 0xffffffff], [7, -1, -1, 0]]).slice(0, rng.below(5)) : [] })
  if (i % 40 === 0) c.push({ op: 'genprime', d: 2, n: rng.pick([82, 95, 96, 97, 127, 128, 129, 160, 192]), m: 20, k: seed(), s: [] })
  return c
}
function fixed(tier) {
  const out = []
  const top = tier === 'quick' ? 2600 : 40000
  for (let lo = 0; lo < top; lo += 50) { const c = []; for (let v = lo; v < lo + 50; v++) c.push(G.setv(0, BigInt(v)), { op: 'prime', a: 0, n: v % 7 ? 23 : 3, k: v + 1, s: v % 3 ? [] : [0, 0, 1] }); out.push(c) }
  for (let n = 0; n < 66; n++) out.push([{ op: 'genprime', d: 0, n, m: 20, k: n + 5, s: n % 2 ? [-1] : [1, -1] }, { op: 'genprime', d: 1, n, m: 20, k: n + 77, s: [0xffffffff, 0xffffffff, 0xffffffff] }])
  for (let n = 1; n < 34; n++) out.push([G.setv(0, BigInt(n)), { op: 'randcover', a: 0, n: 80 * n + 100, k: n }])
  // bounds of every bit length
  for (let b = 3; b <= (tier === 'quick' ? 330 : 1100); b++) {
    const t = 1n << BigInt(b)
    out.push([G.setv(0, t), { op: 'randtop', a: 0, n: 400, k: 3 * b }, G.setv(0, t - 1n), { op: 'randtop', a: 0, n: 400, k: 5 * b }, G.setv(0, t + t / 3n), { op: 'randtop', a: 0, n: 400, k: 7 * b }])
  }
  return out
}
module.exports = { id: 'N11', machine: 'nat', trace, fixed, count: t => t === 'quick' ? 2400 : 14400 }
