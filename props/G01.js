'use strict'
// linear congruential generators: x' = (a x + c) mod m over the integers
const R = require('../gen/rand')
const M = require('../lib/model')
function trace(rng) {
  const c = [R.lcg(rng, 0), R.lcg(rng, 1), { op: 'named', f: rng.pick(R.NAMED.slice(0, 2)), d: 2, b: 0, k: R.seed(rng, 'u32') }]
  for (let i = 0; i < 6; i++) { const d = rng.below(3); c.push({ op: rng.pick(['gen', 'iter']), d, n: rng.int(1, 12) }); if (rng.chance(0.2)) c.push({ op: 'reseed', d, b: 0, k: R.seed(rng, 'u32') }) }
  return c
}
function fixed() {
  const out = []
  const X = [0n, 1n, 2n, 3n, 0x7fffffffn, 0x80000000n, 0xfffffffen, 0xffffffffn]
  for (const f of R.TY) for (const a of X) for (const m of X.slice(1)) { const c = []; for (const k of X) c.push({ op: 'lcg', f, d: 0, b: 0, k, s: [a, X[(Number(m + k) % 8)], m] }, { op: 'gen', d: 0, n: 4 }); out.push(c) }
  const U = [1n, 0xffffffffffffffffn, 0xfffffffffffffffen, 0x8000000000000000n, 0x100000001n]
  for (const f of ['u64', 'usize']) for (const a of U) for (const m of U) out.push(U.flatMap(k => [{ op: 'lcg', f, d: 0, b: 0, k, s: [a, k, m] }, { op: 'gen', d: 0, n: 4 }]))
  for (const f of ['minstd_rand0', 'minstd_rand']) for (const k of [1, 2, 5489, 2147483646]) out.push([{ op: 'named', f, d: 0, b: 0, k }, { op: 'gen', d: 0, n: 10000 }])
  return out
}
module.exports = { id: 'G01', machine: 'rand', trace, fixed, count: t => t === 'quick' ? 5000 : 60000,
  model: (tier, seed) => M.mbt('rand', 'rand', seed, tier === 'quick' ? 150 : 1500, 20, s => M.randObs(s.sys), s => M.evCmd(s.ev), { view: M.randView, wantR: s => s.ev.r }) }
