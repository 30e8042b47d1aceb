'use strict'
const TY = ['u32', 'u64', 'usize']
const bitsOf = f => f === 'u32' ? 32n : 64n
// an integer below 2^n, biased to the ends
function word(rng, n) {
  n = BigInt(n)
  const M = (1n << n) - 1n
  return rng.pick([() => 0n, () => 1n, () => M, () => M - 1n, () => M >> 1n, () => (M >> 1n) + 1n, () => BigInt(rng.below(1000)) & M, ...Array(8).fill(() => raw(rng) & M)])()
}
const raw = rng => BigInt(rng.below(0x7fffffff)) | (BigInt(rng.below(0x7fffffff)) << 31n) | (BigInt(rng.below(0x7fffffff)) << 62n)
const pos = (rng, n) => { const x = word(rng, n); return x === 0n ? 1n : x }
const seed = (rng, f) => rng.chance(0.3) ? rng.pick([0n, 1n, 2n, 2147483562n, 2147483563n, 2147483564n, 2147483647n, 4294967295n, 5489n, 19780503n]) & ((1n << bitsOf(f)) - 1n) : word(rng, bitsOf(f))
function lcg(rng, d) {
  const f = rng.pick(TY), b = bitsOf(f)
  return { op: 'lcg', f, d, b: 0, k: seed(rng, f), s: [word(rng, b), word(rng, b), pos(rng, rng.chance(0.3) ? rng.int(1, Number(b)) : b)] }
}
function lf(rng, d) {
  const f = rng.pick(TY), b = Number(bitsOf(f)), r = rng.chance(0.01) ? rng.int(30, 700) : rng.pick([2, 3, 4, 5, 7, 12, 24, rng.int(2, 30)])
  return { op: 'lf', f, d, b: 0, k: seed(rng, f), s: [rng.pick([1, 2, 24, 31, 32, 33, 48, 63, 64, rng.int(1, 64)].filter(x => x <= b)), rng.int(1, r - 1), r] }
}
function mtp(rng, f, maxn) {
  const b = Number(bitsOf(f)), w = rng.pick([2, 3, 8, 16, 31, 32, 33, 48, 63, 64, rng.int(2, 64)].filter(x => x <= b))
  const n = rng.chance(0.01) ? rng.int(maxn, maxn * 40) : rng.chance(0.3) ? rng.int(2, maxn) : rng.int(2, 6), sh = () => rng.int(1, w - 1)
  return [w, n, rng.int(1, n - 1), sh(), pos(rng, w), sh(), pos(rng, w), sh(), pos(rng, w), sh(), pos(rng, w), sh(), pos(rng, w)]
}
const mt = (rng, d) => { const f = rng.pick(TY); return { op: 'mt', f, d, b: 0, k: seed(rng, f), s: mtp(rng, f, 20) } }
const NAMED = ['minstd_rand0', 'minstd_rand', 'mt19937', 'mt19937_64', 'ranlux24_base', 'ranlux48_base']
module.exports = { TY, bitsOf, word, pos, seed, lcg, lf, mt, mtp, NAMED }
