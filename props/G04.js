'use strict'
// construction rules, determinism, reset = fresh construction, clones are independent
const R = require('../gen/rand')
const mk = (rng, d) => rng.pick([R.lcg, R.lf, R.mt, (g, d) => ({ op: 'named', f: g.pick(['minstd_rand0', 'ranlux24_base', 'ranlux48_base', g.chance(0.1) ? 'mt19937' : 'minstd_rand']), d, b: 0, k: R.seed(g, 'u32') })])(rng, d)
// break one parameter
function hurt(rng, e) {
  const b = R.bitsOf(e.f)
  if (!e.s) return e
  const s = e.s.map(BigInt)
  if (e.op === 'lcg') s[2] = 0n
  else if (e.op === 'lf') { const v = rng.below(6); if (v < 3) s[v] = 0n; else if (v === 3) s[0] = b + 1n; else if (v === 4) s[1] = s[2]; else s[1] = s[2] + 1n }
  else {
    const v = rng.below(20), w = s[0]
    if (v < 13) s[v] = 0n
    else if (v === 13) s[0] = b + BigInt(rng.int(1, 3))
    else if (v === 14) s[2] = s[1] + BigInt(rng.below(2))
    else if (v === 15) s[rng.pick([3, 5, 7, 9, 11])] = w + BigInt(rng.below(2))
    else if (v === 16 && w < b) s[rng.pick([4, 6, 8, 10, 12])] = 1n << w
    else if (v === 17) { const i = rng.pick([5, 7, 9]); s[i] = 0n; s[i + 1] = 0n }
    else { const i = rng.pick([5, 7, 9]); s[i] = 0n }
  }
  return { ...e, s }
}
function trace(rng) {
  const c = [mk(rng, 0), mk(rng, 1)]
  const live = new Set([0, 1])
  for (let i = 0; i < 18; i++) {
    const d = rng.pick([...live]), t = rng.below(4)
    rng.wpick([[5, () => c.push({ op: rng.pick(['gen', 'iter']), d, n: rng.int(0, 6) })], [3, () => { c.push({ op: 'clone', d: t, a: d }); live.add(t) }], [3, () => c.push({ op: 'reseed', d, b: rng.chance(0.25) ? 1 : 0, k: R.seed(rng, 'u32') })],
      [2, () => { c.push(mk(rng, t)); live.add(t) }], [2, () => c.push({ ...mk(rng, d), b: 1 })], [4, () => c.push(hurt(rng, mk(rng, d)))], [1, () => c.push({ ...hurt(rng, mk(rng, d)), b: 1 })]])()
  }
  return c
}
function fixed() {
  const out = []
  for (const f of R.TY) out.push(Array.from({ length: Number(R.bitsOf(f)) + 1 }, (_, k) => ({ op: 'mask', f, k })))
  const P = [32, 4, 2, 31, 0x9908b0df, 11, 0xffffffff, 7, 0x9d2c5680, 15, 0xefc60000, 18, 1812433253]
  for (const f of R.TY) { const c = []
    for (let i = 0; i < 13; i++) for (const v of [0, 1, 31, 32, 33, 64, 65]) { if (i === 1 && v > 40) continue; if (i === 0 && v === 1) continue
      const s = P.slice(); s[i] = v; c.push({ op: 'mt', f, d: 0, b: 0, k: 1, s }, { op: 'mt', f, d: 1, b: 1, k: 1, s }) }
    for (const s of [[0, 1, 2], [1, 0, 2], [1, 1, 0], [1, 1, 1], [1, 2, 1], [32, 1, 2], [33, 1, 2], [64, 1, 2], [65, 1, 2], [1, 1, 2], [24, 24, 24], [24, 23, 24]]) c.push({ op: 'lf', f, d: 0, b: 0, k: 7, s }, { op: 'lf', f, d: 1, b: 1, k: 7, s })
    for (const s of [[0, 0, 0], [1, 1, 0], [0, 0, 1], [5, 3, 0xffffffff]]) c.push({ op: 'lcg', f, d: 0, b: 0, k: 7, s }, { op: 'lcg', f, d: 1, b: 1, k: 7, s })
    out.push(c) }
  for (const f of R.NAMED) for (const k of [0, 1, 4294967295]) out.push([{ op: 'named', f, d: 0, b: 0, k: 99 }, { op: 'gen', d: 0, n: 30 }, { op: 'reseed', d: 0, b: 1, k }, { op: 'gen', d: 0, n: 3 }, { op: 'reseed', d: 0, b: 0, k }, { op: 'named', f, d: 1, b: 0, k }, { op: 'gen', d: 0, n: 10 }, { op: 'iter', d: 1, n: 10 }, { op: 'reseed', d: 1, b: 0, k: 99 }, { op: 'reseed', d: 1, b: 0, k }, { op: 'clone', d: 2, a: 1 }, { op: 'iter', d: 1, n: 10 }, { op: 'gen', d: 2, n: 10 }, { op: 'named', f, d: 3, b: 1, k }])
  return out
}
module.exports = { id: 'G04', machine: 'rand', trace, fixed, count: t => t === 'quick' ? 3000 : 30000 }
