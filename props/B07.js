'use strict'
// BigInt text and byte encodings
const G = require('../gen/common')
const X = require('../gen/text')
const FM = ['d', 'b', 'o', 'x', 'X', 'g', 'Ad', 'Ab', 'Ao', 'Ax', 'AX', 'Ag']
const BAD = ['', ' ', '-', '--1', '-0', '-00', '-01', '-0x', '-0b', '+-1', '-+1', '- 1', ' -12 ', '\t-12\n', '-0x1F', '-0XfF', '-0b101', '-0o17', '1-', '0-1', '-0x-1', '-a', 'a', '-NaN', '-1.5', '-0b0', '-0o00', '-0x0000', '-4294967296', '-18446744073709551616', '−1', '-٣']
function trace(rng) {
  const c = []
  const x = rng.chance(0.05) ? 0n : G.zint(rng, rng.chance(0.1) ? (rng.chance(0.85) ? rng.int(6, 20) : rng.int(20, 100)) : G.textLen(rng))
  for (let i = 0; i < 4; i++) {
    const y = i === 0 ? x : rng.chance(0.3) ? 10n ** BigInt(rng.below(60)) * rng.pick([1n, -1n]) : G.zint(rng, G.textLen(rng))
    const s = (rng.chance(0.1) ? rng.pick([' ', '\t']) : '') + (y < 0n ? '-' : '') + X.zeros(rng, X.numeral(rng, y < 0n ? -y : y, rng.pick(['b', 'o', 'd', 'd', 'x', 'X']))) + (rng.chance(0.1) ? '\n' : '')
    c.push({ op: 'parse', d: rng.below(3), t: G.bytes(s) })
    if (rng.chance(0.6)) c.push({ op: 'parse', d: rng.below(3), t: G.bytes(X.damage(rng, s)) })
  }
  c.push(G.setz(0, x))
  for (const f of FM) if (rng.chance(0.5)) c.push({ op: 'fmt', f, a: 0 })
  for (const f of ['le', 'be', 'cle', 'cbe', 'bits']) c.push({ op: 'q1', f, a: 0 })
  const n = rng.chance(0.95) ? rng.int(0, 21) : rng.int(20, 200), t = Array.from({ length: n }, () => rng.wpick([[3, 0], [2, 255], [1, 128], [4, rng.below(256)]]))
  c.push({ op: 'consb', f: rng.pick(['le', 'be', 'slice', 'vec', 'rvec']), d: 1, t }, { op: 'q1', f: rng.pick(['le', 'be']), a: 1 })
  c.push({ op: 'fmt', f: rng.pick(FM), a: rng.below(4) })
  return c
}
function fixed() {
  const out = BAD.map(s => [{ op: 'parse', d: 1, t: G.bytes(s) }, { op: 'fmt', f: 'd', a: 1 }, { op: 'q1', f: 'class', a: 1 }])
  for (const v of [0n, 1n, -1n, -8n, 255n, -255n, -256n, 4294967296n, -4294967296n, -(1n << 96n)]) out.push([G.setz(0, v), ...FM.map(f => ({ op: 'fmt', f, a: 0 }))])
  out.push([{ op: 'setnan', d: 0 }, ...FM.map(f => ({ op: 'fmt', f, a: 0 }))])
  // every number of digits and of bytes, with a minus sign
  for (let n = 1; n <= 240; n++) { const c = []
    for (const [p, f, ch] of [['', 'd', '9'], ['0b', 'b', '1'], ['0o', 'o', '7'], ['0x', 'x', 'f']]) if (f !== 'd' || n < 80 || n % 4 === 0) c.push({ op: 'parse', d: 0, t: G.bytes('-' + p + ch.repeat(n)) }, { op: 'fmt', f: (n & 1 ? 'A' : '') + f, a: 0 }, { op: 'parse', d: 1, t: G.bytes((n & 1 ? '-' : '') + p + '1' + '0'.repeat(n - 1)) })
    const t = Array.from({ length: n }, (_, i) => i === n - 1 || i === 0 ? 129 : n % 3 ? 0 : 255)
    c.push({ op: 'consb', f: n % 2 ? 'le' : 'be', d: 1, t }, { op: 'o1', f: 'neg', d: 1, a: 1 }, { op: 'q1', f: 'le', a: 1 }, { op: 'q1', f: 'be', a: 1 }, { op: 'q1', f: n % 2 ? 'cle' : 'cbe', a: 0 }, { op: 'q1', f: 'bits', a: 1 })
    out.push(c) }
  for (let b = 1; b < 300; b += 4) { const c = []; for (let k = b; k < b + 4; k++) { c.push(G.setz(0, -(1n << BigInt(k))), G.setz(1, 1n - (1n << BigInt(k)))); for (const f of ['b', 'o', 'x', 'Ax', 'd', 'X']) c.push({ op: 'fmt', f, a: k % 2 }); for (const f of ['le', 'be', 'bits']) c.push({ op: 'q1', f, a: 1 - k % 2 }) } out.push(c) }
  return out
}
module.exports = { id: 'B07', machine: 'int', spec: 'bigint', trace, fixed, count: t => t === 'quick' ? 5400 : 32400 }
