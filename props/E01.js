'use strict'
// the error names its cause: the kinds of NatError, RatError and FloatError
const G = require('../gen/common')
const X = require('../gen/text')
const N08 = require('./N08'), B07 = require('./B07'), R03 = require('./R03'), F04 = require('./F04')
const perr = s => ({ op: 'perr', t: G.bytes(s) })
// the texts of another property's histories
const texts = t => t.filter(c => c.op === 'parse').map(c => ({ op: 'perr', t: c.t }))
const chunks = (cs, n) => { const out = []; for (let i = 0; i < cs.length; i += n) out.push(cs.slice(i, i + n)); return out }
const fixedOf = P => chunks([].concat(...P.fixed().map(texts)), 40)
const twice = (rng, s) => X.damage(rng, X.damage(rng, s))
const numeral = (rng) => X.natText(rng, G.nat(rng, rng.int(1, 3)))

function nat(rng) {
  const c = texts(N08.trace(rng))
  for (let i = 0; i < 6; i++) c.push(perr(twice(rng, numeral(rng))))
  if (rng.chance(0.3)) c.push({ op: 'gperr', n: rng.pick([0, 1, 1, 2, 5, 16]), m: 2, k: rng.below(1000), s: [] })
  return c
}
function int(rng) {
  const c = texts(B07.trace(rng))
  for (let i = 0; i < 6; i++) c.push(perr(rng.pick(['', '-', '- ', '--', ' -']) + twice(rng, numeral(rng))))
  return c
}
function rat(rng) {
  const c = texts(R03.trace(rng)), z = () => rng.pick([[0], [0, 0], [0]])
  const zero = () => rng.pick(['0', '-0', '0x0', '0b00', ' 0', '0 ', '0o0', '-0x000'])
  for (let i = 0; i < 4; i++) c.push(perr(numeral(rng) + '/' + zero()), perr(X.damage(rng, numeral(rng)) + '/' + zero()), perr(zero() + '/' + (rng.chance(0.5) ? numeral(rng) : X.damage(rng, numeral(rng)))))
  for (let i = 0; i < 4; i++) {
    const p = rng.chance(0.4) ? z() : G.toLimbs(G.nat(rng, rng.int(1, 4))), q = rng.chance(0.5) ? [0] : G.toLimbs(G.nat(rng, rng.int(1, 4)))
    c.push({ op: 'fracerr', n: p.length, s: p.concat(q), k: rng.below(2), m: rng.below(2) })
    c.push({ op: 'fracierr', k: rng.pick([0, 1, -1, 7, '9223372036854775807', '-9223372036854775808']), n: rng.pick([0, 0, 1, -1, 12, '-9223372036854775808']) })
    // a zero reached by arithmetic
    const f = rng.pick(['sub', 'mul'])
    c.push({ op: 'set', d: 0, n: p.length, s: p.concat(q.every(x => x === 0) ? [3] : q), k: rng.below(2), m: rng.below(2) }, { op: 'frac', d: 1, k: 0, n: rng.pick([1, -5]) })
    c.push({ op: 'o2', f, d: 2, a: 0, b: f === 'sub' ? rng.pick([0, 1]) : rng.pick([1, 0]) }, { op: 'inverr', a: 0 }, { op: 'inverr', a: 1 }, { op: 'inverr', a: 2 })
  }
  if (rng.chance(0.1)) c.push({ op: 'setnan', d: 3, k: rng.below(2) }, { op: 'inverr', a: 3 })
  return c
}
// an exponent in range but beyond a few thousand takes unreasonable time and memory
const text = c => String.fromCharCode(...c.t)
const cheap = c => { const m = /[eE][-+]?0*(\d+)/.exec(text(c)); return !m || m[1].length < 5 || BigInt(m[1]) > 2147483648n || BigInt(m[1]) === 2147483648n && !/[eE]-/.test(text(c)) }
function float(rng) {
  const c = texts(F04.trace(rng))
  const big = () => { const b = rng.pick([2147483647n, 2147483648n, 4294967296n, 10n ** 15n, 1n << 64n, 1n << 96n, 10n ** 40n]); return b + BigInt(rng.int(1, 5)) }
  for (let i = 0; i < 5; i++) {
    const man = rng.pick(['1', '0', '1.5', '-2.25', '.5', '-7.', '00', '123456789.987654321', '+3'])
    const e = rng.pick(['e', 'E']) + rng.pick(['', '-', '+']) + rng.pick(['', '0', '000']) + big()
    c.push(perr(man + e), perr(X.damage(rng, man) + e), perr(X.damage(rng, man + e)), perr(twice(rng, man + rng.pick(['e5', 'E-7', 'e99', '']))))
  }
  return c.filter(cheap)
}
const FX = ['1e2147483648', '1e-2147483649', '-1e2147483648', '0e2147483648', '0e-2147483649', '1.e99999999999999999999', '1e-4294967296', '1e4294967296', '1e18446744073709551616', '1e-18446744073709551617', 'xe99999999999', '1.5.2e99999999999', 'e99999999999', '.e-99999999999', '1e9999999999x', '1e+9999999999', '1E-9999999999', '-.5E9999999999', '1e-0000009999999999']
module.exports = { id: 'E01', parts: [
  { name: 'nat', machine: 'nat', trace: nat, fixed: () => fixedOf(N08).concat([[0, 1, 2, 3, 8].map(n => ({ op: 'gperr', n, m: 3, k: 5, s: [] }))]), count: t => t === 'quick' ? 1800 : 30000 },
  { name: 'int', machine: 'int', spec: 'bigint', trace: int, fixed: () => fixedOf(B07), count: t => t === 'quick' ? 1400 : 25000 },
  { name: 'rat', machine: 'rat', trace: rat, fixed: () => fixedOf(R03), count: t => t === 'quick' ? 1200 : 20000 },
  { name: 'float', machine: 'float', trace: float, fixed: () => fixedOf(F04).concat([FX.map(perr)]), count: t => t === 'quick' ? 1200 : 20000 },
] }
