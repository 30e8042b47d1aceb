'use strict'
// Float text
const G = require('../gen/common')
const X = require('../gen/text')
const F = require('../gen/float')
const P = [0, 1, 2, 3, 5, 7, 10, 20, 40]
const BAD = ['', ' ', '.', '-', '-.', '.e5', 'e5', '-e5', '1e', '1e-', '1.5e', '1.5.2', '1e5.5', '1e5e5', '1E5e5', 'a', '1a', '1.a', '1.5a', '0x', 'NaN', 'Inf', 'inf', '--1', '-1', '12', '-0', '0', '007', '0x1F', '0b101', '0o17', '-0xff',
  '1e5', '1E5', '1e-5', '-1e5', '1e05', '1e-05', '1e+5', '0.5', '-0.5', '.5', '-.5', '5.', '5.e2', '0.0', '-0.0', '0e5', '0.0e-5', '00.5', '1.5', '1.5e3', '1.5e-3', '-1.5E3', '0.1', '123456789.987654321', '1.0', '100.00', '1e400', '1e-400', '0.000001', ' 1.5 ', '\t-2.25\n', '0x1.8', '0x1e5', '0b1.1', '-0x1e5', '0xE', '0e0x5', '0.x', '0x1E.', '0b1e1', '0e', '+0xe', '1x5.0', '0o1.7e2', '1.5e99999999999', '1e-99999999999', '1.-5', '1.5e--3', '+1.5', '+0.5', '+12', '1,5', '1_0.5', '٣.5', '−1.5', '4.9406564584124654e-324', '3.4028236e38', '-.0', '-0.', '-0e5', '.0', '0.', '.', '-0e-7', '+.0', '-.0e1', '-000', '-0.e3']
function dec(rng) {
  const ds = n => Array.from({ length: n }, () => rng.chance(0.3) ? '0' : rng.below(10)).join('')
  let s = ds(rng.int(0, rng.pick([3, 25, 25, 90]))) + (rng.chance(0.8) ? '.' + ds(rng.int(0, rng.pick([4, 30, 30, 120]))) : '')
  if (rng.chance(0.5)) s += rng.pick(['e', 'E']) + rng.pick(['', '-', '', '+']) + (rng.chance(0.2) ? '0'.repeat(rng.int(1, 4)) : '') + rng.below(rng.pick([10, 40, 330]))
  return (rng.chance(0.3) ? '-' : '') + s
}
const Q = (rng, a) => [{ op: 'fmt', f: 'e', a, n: rng.chance(0.2) ? -1 : rng.pick(P) }, { op: 'fmt', f: rng.pick(['E', 'e']), a, n: rng.pick(P) }, { op: 'fmt', f: rng.pick(['d', 'g']), a, n: -1 }]
function trace(rng) {
  const c = []
  for (let i = 0; i < 5; i++) { const s = dec(rng); c.push({ op: 'parse', d: 0, t: G.bytes(s) }, ...Q(rng, 0)); if (rng.chance(0.4)) c.push({ op: 'parse', d: 1, t: G.bytes(X.damage(rng, s)) }) }
  for (let i = 0; i < 4; i++) c.push(F.mk(rng, 2), ...Q(rng, 2))
  // decimal ties and carries: (10^a * x +- tiny) / 10^b cannot be binary fractions, multiples of 5^k/2^j can
  for (let i = 0; i < 3; i++) { const v = 5n ** BigInt(rng.below(20)) * BigInt(rng.int(1, 999)) * 10n ** BigInt(rng.pick([0, 0, 3, 12])); c.push({ op: 'mk', d: 3, s: G.toLimbs(v), k: rng.below(2), n: 120, m: rng.below(6), c: -rng.below(24) }, ...Q(rng, 3)) }
  const nines = 10n ** BigInt(rng.int(1, 25)) - BigInt(rng.below(7)); c.push({ op: 'mk', d: 3, s: G.toLimbs(nines), k: 0, n: 120, m: 0, c: rng.pick([0, 0, -1, -3]) }, ...Q(rng, 3))
  if (rng.chance(0.3)) c.push({ op: 'parse', d: 1, t: G.bytes((rng.chance(0.5) ? '-' : '') + G.nat(rng, rng.int(1, 4))) }, ...Q(rng, 1))
  return c
}
function fixed() {
  const out = BAD.map(s => [{ op: 'parse', d: 1, t: G.bytes(s) }, { op: 'fmt', f: 'e', a: 1, n: 5 }, { op: 'fmt', f: 'd', a: 1, n: -1 }])
  for (const x of [{ op: 'default', d: 0 }, { op: 'inf', d: 0, k: 0 }, { op: 'inf', d: 0, k: 1 }, { op: 'nan', d: 0, k: 0 }]) out.push([x, ...['e', 'E', 'd', 'g'].map(f => ({ op: 'fmt', f, a: 0, n: 3 })), { op: 'o1', f: 'neg', d: 0, a: 0 }, ...['e', 'E', 'd', 'g'].map(f => ({ op: 'fmt', f, a: 0, n: -1 }))])
  for (let v = 1; v <= 1100; v += v < 130 ? 1 : 97) { const c = []; for (const k of [0, -1, -4, -9, -30, 5]) { c.push({ op: 'mk', d: 0, s: [v], k: 0, n: 20, m: 0, c: k }); for (const n of [0, 1, 2, 4]) c.push({ op: 'fmt', f: 'e', a: 0, n }); c.push({ op: 'fmt', f: 'd', a: 0, n: -1 }, { op: 'setprec', d: 0, n: 4 }, { op: 'fmt', f: 'd', a: 0, n: -1 }) } out.push(c) }
  // carries through every length of nines
  for (let k = 1; k <= 110; k++) { const v = 10n ** BigInt(k), c = []
    for (const [w, e] of [[v - 1n, 0], [(v << 5n) - 3n, -5], [v * 10n - 5n, 0], [v * 10n + 5n, 0], [v - 2n, -1]]) { c.push({ op: 'mk', d: 0, s: G.toLimbs(w), k: k % 2, n: 400, m: 0, c: e }); for (const n of [k - 2, k - 1, k]) if (n >= 0) c.push({ op: 'fmt', f: 'e', a: 0, n }) }
    if (k % 3 === 0) c.push({ op: 'setprec', d: 0, n: 30 + k }, { op: 'fmt', f: 'd', a: 0, n: -1 })
    out.push(c) }
  // m / 2^k for every k: short and long quotients
  for (let k = 1; k <= 95; k++) { const t = 1n << BigInt(k), d = 10n ** BigInt(Math.floor(k * 0.30103)), c = []
    for (const w of [t - 1n, t - 3n, d + 1n, d * 10n - 1n, t / 5n | 1n, t / 10n | 1n, 5n, 1n, t + 1n, t / 3n * 2n | 1n, d | 1n, 9n * d | 1n]) if (w > 0n) c.push({ op: 'mk', d: 0, s: G.toLimbs(w), k: 0, n: k + 8, m: 0, c: -k }, { op: 'fmt', f: 'e', a: 0, n: 110 }, { op: 'fmt', f: 'd', a: 0, n: -1 })
    out.push(c) }
  // decimal exponents of two, three and four digits
  for (const e of [30, 33, 36, 329, 332, 335, 3317, 3318, 3319, 3320, 3321, 3322, 3323, 3325, 3330, 5000]) out.push([1, 5, 7].flatMap(s => [-e, ...(e < 1000 ? [e] : s === 5 ? [e > 4000 ? 3500 : e] : [])].flatMap(c => [{ op: 'mk', d: 0, s: [s], k: 0, n: 12, m: 0, c }, { op: 'fmt', f: s === 1 ? 'E' : 'e', a: 0, n: 6 }, { op: 'fmt', f: 'd', a: 0, n: -1 }])))
  // numerals with many digits before and after the point
  for (let k = 1; k <= 300; k += k < 140 ? 1 : 8) out.push(['1.' + '0'.repeat(k) + '1', '0.' + '0'.repeat(k) + '7', '-' + '3'.repeat(k % 70 + 1) + '.' + '1415926535897932384'.repeat(16).slice(0, k), '9'.repeat(k) + '.5e-' + k, '1e' + k, '-0.5E' + k, '2.5e-' + k].flatMap(t => [{ op: 'parse', d: 0, t: G.bytes(t) }, { op: 'fmt', f: 'e', a: 0, n: 9 }]))
  for (const t of ['1e600', '1e700', '1.25e999', '1e-999', '-3e1000', '7.5e-1000']) out.push([{ op: 'parse', d: 0, t: G.bytes(t) }])
  // sign x digits x exponent
  for (const s of ['', '-', '+']) for (const m of ['12', '1.5', '.5', '5.', '0x1F', '0X1F', '0x1E5', '0XAE', '0Xe', '0b1', '0B101', '0o17', '007', '0', '-0.', '0XB.1'])
    out.push(['', 'e5', 'E5', 'e+5', 'e-5', 'e05', 'e+05', 'e-007', 'e+0123', 'E+0', 'e00', 'E-0000', 'e+', 'e-', 'e0x5', 'e+-5', 'e 5', 'e++5', 'E', '+', 'e+0x5'].flatMap(e => [{ op: 'parse', d: 0, t: G.bytes(s + m + e) }, { op: 'fmt', f: 'e', a: 0, n: 4 }]))
  return out
}
module.exports = { id: 'F04', machine: 'float', trace, fixed, count: t => t === 'quick' ? 2400 : 20000 }
