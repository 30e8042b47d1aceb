'use strict'
// BigInt division family
const G = require('../gen/common')
const F = ['div', 'rem', 'reme', 'dive']
function trace(rng) {
  const c = []
  for (let j = 0; j < 4; j++) {
    const y = rng.chance(0.2) ? rng.pick([1n, -1n, 2n, -2n, 5n, -5n]) : G.zint(rng, G.smallLen(rng))
    let x
    switch (rng.below(4)) {
      case 0: x = G.zint(rng, G.smallLen(rng) + 1); break
      case 1: x = y * G.zint(rng, rng.int(1, 3)); break // exact
      case 2: x = y * G.zint(rng, rng.int(1, 3)) + rng.pick([1n, -1n]); break
      default: x = G.znear(rng, y)
    }
    c.push(G.setz(0, x), G.setz(1, y))
    for (const f of F) c.push({ op: 'o2', f, d: 2, a: 0, b: 1 }, { op: 'q1', f: 'class', a: 2 })
    const f = rng.pick(F)
    c.push({ op: 'deep', d: 3, a: 0 })
    if (y !== 0n) c.push({ op: 'a2', f, d: 3, b: 1 }, { op: 'cmpu', a: 3, k: 0 })
  }
  if (rng.chance(0.1)) c.push({ op: 'setnan', d: 2 }, { op: 'o2', f: rng.pick(F), d: 3, a: 2, b: 1 }, { op: 'o2', f: rng.pick(F), d: 3, a: 1, b: 2 })
  return c
}
function fixed() {
  const out = []
  for (let x = -13; x <= 13; x++) { const c = []
    for (let y = -6; y <= 6; y++) for (const f of F) { c.push(G.setz(0, BigInt(x)), G.setz(1, BigInt(y)), { op: 'o2', f, d: 2, a: 0, b: 1 }); if (y) c.push({ op: 'a2', f, d: 0, b: 1 }, { op: 'q1', f: 'class', a: 0 }, { op: 'fmt', f: 'd', a: 0 }) }
    out.push(c) }
  // every pair of lengths and signs, remainders zero, one and divisor less one
  for (let n = 1; n <= 36; n++) for (const m of [1, 2, n, (n >> 1) + 1, Math.max(1, n - 1)]) { const c = []
    for (const [s, t] of [[1n, -1n], [-1n, 1n], [-1n, -1n]]) { const y = (m % 2 ? (1n << BigInt(32 * m)) - 5n : (1n << BigInt(32 * m - 1)) + 3n), q = (1n << BigInt(32 * (n - m) + 7)) / 3n + 1n
      for (const r of [0n, 1n, y - 1n]) { c.push(G.setz(0, (q * y + r) * s), G.setz(1, y * t)); for (const f of F) c.push({ op: 'o2', f, d: 2, a: 0, b: 1 }); c.push({ op: 'a2', f: F[(n + m) % 4], d: 0, b: 1 }) } }
    out.push(c) }
  return out
}
module.exports = { id: 'B02', machine: 'int', spec: 'bigint', trace, fixed, count: t => t === 'quick' ? 7500 : 45000 }
