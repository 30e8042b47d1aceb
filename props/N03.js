'use strict'
// canonical representation, equality, order
const G = require('../gen/common')
const T = { u8: 8, u16: 16, u32: 32, u64: 64, usize: 64, u128: 128 }
function trace(rng) {
  const c = []
  // inputs with leading zero limbs / zero bytes must be canonicalised
  const pad = () => Array.from({ length: rng.below(4) }, () => 0n)
  const x = G.nat(rng, G.smallLen(rng))
  const y = rng.chance(0.6) ? G.near(rng, x) : G.nat(rng, G.smallLen(rng))
  c.push({ op: 'set', f: rng.pick(['vec', 'rvec', 'slice']), d: 0, s: [...G.toLimbs(x), ...pad()] })
  c.push({ op: 'set', f: rng.pick(['vec', 'rvec', 'slice']), d: 1, s: [...G.toLimbs(y), ...pad()] })
  c.push({ op: 'cmp', a: 0, b: 1 }, { op: 'cmp', a: 1, b: 0 }, { op: 'cmp', a: 0, b: 0 })
  // reach the same value by different routes
  c.push({ op: 'o2', f: 'add', d: 2, a: 0, b: 1 }, { op: 'o2', f: 'sub', d: 2, a: 2, b: 1 }, { op: 'cmp', a: 2, b: 0 })
  c.push({ op: 'o2', f: 'xor', d: 3, a: 0, b: 1 }, { op: 'a2', f: 'xor', d: 3, b: 1 }, { op: 'cmp', a: 3, b: 2 })
  const k = rng.below(130)
  c.push({ op: 'ou', f: 'shl', d: 3, a: 0, k }, { op: 'au', f: 'shr', d: 3, k }, { op: 'cmp', a: 3, b: 0 })
  const u = 1 + rng.below(1000)
  c.push({ op: 'ou', f: 'mul', d: 3, a: 1, k: u }, { op: 'au', f: 'div', d: 3, k: u }, { op: 'cmp', a: 3, b: 1 })
  c.push({ op: 'ou', f: 'sub', d: 3, a: 1, k: rng.u32() }, { op: 'o2', f: 'mul', d: 3, a: 3, b: 2 }, { op: 'cmp', a: 3, b: 0 })
  for (const f of Object.keys(T)) {
    const b = BigInt(T[f])
    const m = (1n << b) - 1n
    const kk = rng.chance(0.5) ? (x & m) : rng.chance(0.5) ? (G.near(rng, x & m) & m) : rng.pick([0n, 1n, m, m - 1n])
    c.push({ op: 'cmpu', f, a: 0, k: kk })
  }
  if (rng.chance(0.3)) c.push({ op: 'setnan', d: 2 }, { op: 'cmp', a: 2, b: 0 }, { op: 'cmp', a: 0, b: 2 }, { op: 'cmp', a: 2, b: 2 }, { op: 'cmpu', f: 'u32', a: 2, k: 0 })
  // random op soup: canonical form is checked on every handle after every call
  for (let i = 0; i < 10; i++) {
    const d = rng.below(4), a = rng.below(4), b = rng.below(4)
    c.push(rng.pick([
      { op: 'o2', f: rng.pick(['add', 'sub', 'mul', 'and', 'or', 'xor', 'andnot', 'mulk', 'subs']), d, a, b },
      { op: 'a2', f: rng.pick(['add', 'sub', 'and', 'or', 'xor', 'andnot']), d, b },
      { op: 'ou', f: rng.pick(['add', 'sub', 'mul']), d, a, k: rng.pick(G.EDGE) },
      { op: 'au', f: rng.pick(['add', 'sub', 'mul', 'shl', 'shr']), d, k: rng.below(100) },
      { op: 'o1', f: rng.pick(['not', 'sqr', 'sqrt']), d, a },
      { op: 'cmp', a, b }, G.setv(d, G.nat(rng, G.smallLen(rng)))]))
  }
  return c
}
// all pairs from a set of boundary values
function fixed() {
  const vs = []
  for (const e of [0n, 8n, 16n, 31n, 32n, 33n, 63n, 64n, 65n, 96n, 128n]) for (const d of [-1n, 0n, 1n]) { const v = (1n << e) + d; if (v >= 0n) vs.push(v) }
  const out = []
  // one differing limb, at every position of every length; equal values with zero limbs on top
  for (let n = 1; n <= 64; n++) { const c = [], v = ((1n << BigInt(32 * n)) - 1n) / 5n
    for (let i = 0; i < n; i += (n < 20 ? 1 : 3)) { const w = v ^ (1n << BigInt(32 * ((i + n) % n) + (i * 7 + n) % 32)); c.push(G.setv(0, v), G.setv(1, w), { op: 'cmp', a: 0, b: 1 }, { op: 'o2', f: 'xor', d: 2, a: 0, b: 1 }, { op: 'o2', f: 'andnot', d: 3, a: 0, b: 1 }) }
    c.push({ op: 'set', f: ['vec', 'rvec', 'slice'][n % 3], d: 2, s: [...G.toLimbs(v), ...Array(n % 9).fill(0n)] }, { op: 'cmp', a: 0, b: 2 }, { op: 'o2', f: 'xor', d: 3, a: 0, b: 2 }, { op: 'o2', f: 'sub', d: 3, a: 0, b: 2 }, { op: 'o2', f: 'subs', d: 3, a: 0, b: 2 }, { op: 'o1', f: 'not', d: 3, a: 0 }, G.setv(3, (1n << BigInt(32 * n)) - 1n), { op: 'o1', f: 'not', d: 3, a: 3 }, G.setv(1, (1n << BigInt(32 * n)) - 1n - BigInt(n)), { op: 'o1', f: 'not', d: 1, a: 1 })
    out.push(c) }
  // low parts of every width that equal a machine integer, with and without something above
  for (let b = 1; b <= 200; b++) { const c = [G.setv(0, (1n << BigInt(b)) - 1n), G.setv(1, (1n << BigInt(b)) + 5n)]
    for (const f of Object.keys(T)) { const M = (1n << BigInt(T[f])) - 1n; c.push({ op: 'cmpu', f, a: 0, k: ((1n << BigInt(b)) - 1n) & M }, { op: 'cmpu', f, a: 1, k: ((1n << BigInt(b)) + 5n) & M }, { op: 'cmpu', f, a: 1, k: 5n }) }
    out.push(c) }
  return out.concat(vs.map(x => { const c = [G.setv(0, x)]; for (const y of vs) c.push(G.setv(1, y), { op: 'cmp', a: 0, b: 1 }); return c }))
}
module.exports = { id: 'N03', machine: 'nat', trace, fixed, count: t => t === 'quick' ? 10000 : 60000 }
