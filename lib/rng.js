'use strict'
// deterministic generator used for every random choice of the checks
class Rng {
  constructor(seed) { this.s = BigInt.asUintN(64, BigInt(seed) * 0x9E3779B97F4A7C15n + 0x1234567n) }
  next() { // splitmix64
    this.s = BigInt.asUintN(64, this.s + 0x9E3779B97F4A7C15n)
    let z = this.s
    z = BigInt.asUintN(64, (z ^ (z >> 30n)) * 0xBF58476D1CE4E5B9n)
    z = BigInt.asUintN(64, (z ^ (z >> 27n)) * 0x94D049BB133111EBn)
    return z ^ (z >> 31n)
  }
  u32() { return Number(this.next() >> 32n) }
  below(n) { return Number(this.next() % BigInt(n)) }
  int(lo, hi) { return lo + this.below(hi - lo + 1) }
  pick(xs) { return xs[this.below(xs.length)] }
  chance(p) { return this.u32() / 4294967296 < p }
  // weighted pick: [[w, x], ...]
  wpick(ws) {
    let t = 0
    for (const [w] of ws) t += w
    let r = this.below(t)
    for (const [w, x] of ws) { if (r < w) return x; r -= w }
  }
  shuffle(xs) { for (let i = xs.length - 1; i > 0; i--) { const j = this.below(i + 1);[xs[i], xs[j]] = [xs[j], xs[i]] } return xs }
}
module.exports = { Rng }
