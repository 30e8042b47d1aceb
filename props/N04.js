'use strict'
// the three multiplication routes agree with the product at every size
const G = require('../gen/common')
const LENS = [1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 18, 19, 20, 21, 22, 31, 32, 33, 38, 39, 40, 41, 42, 43, 47, 59, 60, 63, 64, 65, 79, 80, 81, 82, 83, 95, 100, 119, 120, 127, 128, 129, 159, 160, 161, 163, 200, 239, 240, 255, 256, 258, 259, 260, 261, 262, 300, 319, 320, 321, 400, 511, 512, 519, 520, 521, 522, 640, 1040]
function big(rng, n) {
  const l = G.limbsOf(rng, n)
  if (rng.chance(0.3)) { const a = rng.below(n), b = rng.int(a, n); for (let i = a; i < b; i++) l[i] = rng.pick([0n, 0xffffffffn]); if (l[n - 1] === 0n) l[n - 1] = 1n }
  if (rng.chance(0.15) && n > 1) { // zero halves: the k-splits of karatsuba
    const h = n >> 1; for (let i = (rng.chance(0.5) ? 0 : h); i < (rng.chance(0.5) ? h : n - 1); i++) l[i] = 0n }
  return G.val(l)
}
function mk(rng, n, m) {
  const x = big(rng, n), y = rng.chance(0.1) ? x : big(rng, m)
  return [G.setv(0, x), G.setv(1, y),
    { op: 'o2', f: 'mul', d: 2, a: 0, b: 1 }, { op: 'o2', f: 'mulk', d: 3, a: 0, b: 1 }, { op: 'cmp', a: 2, b: 3 },
    { op: 'o2', f: 'mulk', d: 3, a: 1, b: 0 },
    { op: 'o1', f: 'sqr', d: 2, a: 0 }, { op: 'o2', f: 'mulk', d: 3, a: 0, b: 0 }, { op: 'o2', f: 'mul', d: 3, a: 0, b: 0 }, { op: 'cmp', a: 2, b: 3 },
    { op: 'clone', d: 3, a: 1 }, { op: 'a2', f: 'mul', d: 3, b: 1 }, { op: 'a2', f: 'mul', d: 0, b: 2 }]
}
function trace(rng, i) {
  const n = i < 3 * LENS.length ? LENS[i % LENS.length] : rng.chance(0.5) ? rng.int(1, 130) : rng.pick(LENS)
  const m = i < LENS.length ? n : rng.chance(0.3) ? n : rng.chance(0.4) ? rng.int(1, 130) : rng.pick(LENS)
  return mk(rng, n, m)
}
// every length against itself and against shorter ones, with all limbs full (every carry) or nearly empty
function fixed() {
  const out = []
  for (let n = 1; n <= 140; n++) { const c = [], X = (1n << BigInt(32 * n)) - 1n
    for (const m of [n, 1 + (n * 7) % n, 1 + n % 5, Math.max(1, n - 1), (n >> 1) + 1]) {
      const y = m % 2 ? (1n << BigInt(32 * m)) - 1n : (1n << BigInt(32 * m - 1)) + 1n
      c.push(G.setv(0, m === n ? X : X - (1n << BigInt(16 * n))), G.setv(1, y), { op: 'o2', f: 'mul', d: 2, a: 0, b: 1 }, { op: 'o2', f: 'mulk', d: 3, a: 0, b: 1 }, { op: 'cmp', a: 2, b: 3 }, { op: 'o2', f: 'mul', d: 3, a: 1, b: 0 })
    }
    c.push({ op: 'o1', f: 'sqr', d: 2, a: 0 }, G.setv(0, X), { op: 'o1', f: 'sqr', d: 2, a: 0 })
    out.push(c) }
  return out
}
module.exports = { id: 'N04', machine: 'nat', trace, fixed, batch: 10, count: t => t === 'quick' ? 8000 : 48000 }
