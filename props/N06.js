'use strict'
// integer square root (Nat and BigInt)
const G = require('../gen/common')
function trace(rng) {
  const c = []
  for (let i = 0; i < 6; i++) {
    const r = G.nat(rng, rng.chance(0.93) ? rng.int(1, 6) : rng.int(7, rng.chance(0.8) ? 24 : 90))
    const v = rng.pick([r, r * r, r * r + 1n, r * r > 0n ? r * r - 1n : 0n, r * r + 2n * r, (r + 1n) * (r + 1n), r * r + r])
    c.push(G.setv(0, v), { op: 'o1', f: 'sqrt', d: 1, a: 0 }, { op: 'clone', d: 2, a: 0 }, { op: 'o1', f: 'sqrt', d: 0, a: 0 })
  }
  c.push({ op: 'setnan', d: 3 }, { op: 'o1', f: 'sqrt', d: 1, a: 3 })
  return c
}
function fixed() {
  const out = []
  for (let lo = 0; lo < 1200; lo += 40) { const c = []; for (let v = lo; v < lo + 40; v++) c.push(G.setv(0, BigInt(v)), { op: 'o1', f: 'sqrt', d: 1, a: 0 }); out.push(c) }
  for (let e = 1; e < 260; e += 8) { const c = []; for (let k = e; k < e + 8; k++) for (const d of [-1n, 0n, 1n]) c.push(G.setv(0, (1n << BigInt(k)) + d), { op: 'o1', f: 'sqrt', d: 1, a: 0 }); out.push(c) }
  // roots of every bit length, on both sides of the square
  for (let b = 2; b <= 640; b++) { const R = 1n << BigInt(b), r = b % 3 === 0 ? R - 1n : b % 3 === 1 ? (R >> 1n) + 1n : R / 2n + R / 5n, c = []
    for (const v of [r * r, r * r - 1n, r * r + 2n * r, (r - 1n) * (r + 1n) - 1n]) c.push(G.setv(0, v), { op: 'o1', f: 'sqrt', d: 1, a: 0 })
    c.push(G.setv(0, R * R - 1n), { op: 'o1', f: 'sqrt', d: 1, a: 0 }, G.setv(0, 2n * R * R - BigInt(b)), { op: 'o1', f: 'sqrt', d: 1, a: 0 })
    out.push(c) }
  return out
}
module.exports = { id: 'N06', parts: [
  { name: 'nat', machine: 'nat', trace, fixed, count: t => t === 'quick' ? 7500 : 45000 },
] }
