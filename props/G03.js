'use strict'
// lagged Fibonacci (subtract with carry) family
const R = require('../gen/rand')
function trace(rng) {
  const c = [R.lf(rng, 0)], n = Number(c[0].s[2])
  c.push({ op: 'gen', d: 0, n: rng.int(1, 2 * n + 3) }, { op: 'clone', d: 1, a: 0 }, { op: rng.pick(['gen', 'iter']), d: 0, n: rng.int(1, 2 * n + 3) })
  if (rng.chance(0.3)) c.push({ op: 'reseed', d: 1, b: 0, k: R.seed(rng, 'u32') })
  c.push({ op: 'gen', d: 1, n: n + 2 }, { op: 'gen', d: 0, n: 3 })
  return c
}
function fixed(t) {
  const out = []
  for (const f of ['ranlux24_base', 'ranlux48_base']) for (const k of [0, 1, 19780503, 2147483563, 4294967295]) out.push([{ op: 'named', f, d: 0, b: 0, k }, { op: 'gen', d: 0, n: 1 }, { op: 'gen', d: 0, n: t === 'quick' ? 2000 : 20000 }, { op: 'iter', d: 0, n: 100 }])
  // every small word size and lag pair
  for (const f of R.TY) for (let w = 1; w <= 64; w++) if (w <= Number(R.bitsOf(f))) out.push([2, 3, 5].flatMap(r => [{ op: 'lf', f, d: 0, b: 0, k: w * 77, s: [w, r - 1, r] }, { op: 'gen', d: 0, n: 12 }, { op: 'lf', f, d: 1, b: 0, k: 0, s: [w, 1, r] }, { op: 'gen', d: 1, n: 12 }]))
  for (const [f, w, j, r] of [['u32', 32, 418, 1279], ['u64', 64, 1, 607], ['usize', 33, 1029, 1030], ['u64', 48, 273, 2281]]) out.push([{ op: 'lf', f, d: 0, b: 0, k: 5489, s: [w, j, r] }, { op: 'gen', d: 0, n: r + 50 }, { op: 'iter', d: 0, n: r }])
  // narrow words and long lags: the last state word is often zero
  for (const [f, j, r] of [['u32', 5, 1024], ['u64', 700, 1025], ['usize', 1, 1100], ['u32', 2047, 2048], ['u64', 30, 333]]) for (let w = 1; w <= 3; w++) for (let k = 0; k < (t === 'quick' ? 4 : 20); k++) out.push([{ op: 'lf', f, d: 0, b: 0, k: 977 * k + w, s: [w, j, r] }, { op: 'gen', d: 0, n: r + 5 }])
  return out
}
module.exports = { id: 'G03', machine: 'rand', trace, fixed, count: t => t === 'quick' ? 12500 : 75000 }
