'use strict'
// Mersenne twister family
const R = require('../gen/rand')
function trace(rng) {
  const c = [R.mt(rng, 0)], n = Number(c[0].s[1])
  c.push({ op: 'gen', d: 0, n: 1 }, { op: 'clone', d: 1, a: 0 }, { op: rng.pick(['gen', 'iter']), d: 0, n: rng.int(1, 2 * n + 3) })
  if (rng.chance(0.3)) c.push({ op: 'reseed', d: 1, b: 0, k: R.seed(rng, 'u32') })
  c.push({ op: 'gen', d: 1, n: n + 2 }, { op: 'gen', d: 0, n: 3 })
  return c
}
function fixed(t) {
  const out = []
  for (const f of ['mt19937', 'mt19937_64']) for (const k of [0, 1, 5489, 4294967295]) out.push([{ op: 'named', f, d: 0, b: 0, k }, { op: 'gen', d: 0, n: 1 }, { op: 'gen', d: 0, n: f === 'mt19937' ? 700 : 700 }, { op: 'iter', d: 0, n: t === 'quick' ? 200 : 2000 }])
  // state sizes beyond the named generators
  for (const [f, w, n, m, k] of [['u32', 32, 1279, 418, 77], ['u64', 64, 1500, 1499, 2 ** 40], ['u64', 63, 2281, 1, 3], ['usize', 17, 1030, 600, 65535]]) out.push([{ op: 'mt', f, d: 0, b: 0, k, s: [w, n, m, w - 1, 0x7b0f, 11 % w || 1, 0x1ffff, 7, 0x15680, 15, 0x1c600, w / 2 | 0, 1812433 % 2 ** 17] }, { op: 'gen', d: 0, n: n + 50 }, { op: 'iter', d: 0, n: n }])
  return out
}
module.exports = { id: 'G02', machine: 'rand', trace, fixed, count: t => t === 'quick' ? 3000 : 30000 }
