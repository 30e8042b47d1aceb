'use strict'
// Nat text: parsing grammar and formatting
const G = require('../gen/common')
const X = require('../gen/text')
const FM = ['d', 'b', 'o', 'x', 'X', 'g', 'Ad', 'Ab', 'Ao', 'Ax', 'AX', 'Ag']
const BAD = ['', ' ', '+', '++', '+ +', '00', '01', '007', '0', '0b', '0o', '0x', '0B', '0X', '0O7', '0b2', '0o8', '0xg', '0b', 'b1', 'x1', '-1', '1 2', '1_000', '1e5', '1.5', '+0x1F', ' 12 ', '\t12\n', '0x 1', '0b0', '0o0', '0x0', '0b00000000000000000000000000000000000', '0x00000000000000000', '+ + 5', '+-5', 'NaN', 'a', 'F', '0xfF', '0XFF', '9', '10', '4294967295', '4294967296', '18446744073709551616']
function trace(rng) {
  const c = []
  const len = rng.chance(0.1) ? (rng.chance(0.85) ? rng.int(6, 22) : rng.int(22, 100)) : G.textLen(rng)
  const x = G.nat(rng, len)
  for (let i = 0; i < 4; i++) {
    const y = i === 0 ? x : rng.chance(0.3) ? BigInt(10) ** BigInt(rng.below(60)) + BigInt(rng.int(-1, 1)) : G.nat(rng, G.textLen(rng))
    const s = X.natText(rng, y < 0n ? 0n : y)
    c.push({ op: 'parse', d: rng.below(3), t: G.bytes(s) })
    if (rng.chance(0.7)) c.push({ op: 'parse', d: rng.below(3), t: G.bytes(X.damage(rng, s)) })
  }
  c.push({ op: 'parse', d: 1, t: G.bytes(rng.pick(BAD)) })
  c.push(G.setv(0, x))
  for (const f of FM) if (rng.chance(0.5)) c.push({ op: 'fmt', f, a: 0 })
  // sparse / aligned digits: inner zero limbs must keep their padding
  c.push(G.setv(3, 1n << BigInt(rng.below(200))), { op: 'fmt', f: rng.pick(FM), a: 3 }, { op: 'fmt', f: 'o', a: 3 })
  if (rng.chance(0.1)) c.push({ op: 'setnan', d: 3 }, ...FM.map(f => ({ op: 'fmt', f, a: 3 })))
  return c
}
function fixed() {
  const out = BAD.map(s => [{ op: 'parse', d: 1, t: G.bytes(s) }, { op: 'fmt', f: 'd', a: 1 }])
  // every ASCII code point in first, second and later position
  for (let p = 0; p < 128; p += 32) {
    const c = []
    for (let q = p; q < p + 32; q++) {
      const k = String.fromCodePoint(q)
      for (const s of [k, '1' + k, '0' + k, '0x' + k, '0b1' + k, '0o' + k + '7', '12' + k + '3']) c.push({ op: 'parse', d: 1, t: G.bytes(s) })
    }
    out.push(c)
  }
  for (let e = 0; e < 140; e += 4) { // powers of two and neighbours, all formats
    const c = []
    for (let k = e; k < e + 4; k++) for (const d of [-1n, 0n]) { c.push(G.setv(0, (1n << BigInt(k)) + d)); for (const f of ['d', 'b', 'o', 'x', 'X', 'g', 'Ao']) c.push({ op: 'fmt', f, a: 0 }) }
    out.push(c)
  }
  // every number of digits, in every radix: the largest and the smallest such numeral
  for (let n = 1; n <= 330; n++) {
    const c = []
    for (const [p, b, ch] of [['', 'd', '9'], ['0b', 'b', '1'], ['0o', 'o', '7'], ['0x', 'x', 'f']]) {
      if (b === 'd' ? n > 260 : false) continue
      c.push({ op: 'parse', d: 0, t: G.bytes(p + ch.repeat(n)) }, { op: 'parse', d: 1, t: G.bytes(p + '1' + '0'.repeat(n - 1)) })
      if (b !== 'd' || n < 60 || n % 3 === 0) c.push({ op: 'fmt', f: b, a: 0 }, { op: 'fmt', f: (n & 1 ? 'A' : '') + b, a: 1 })
      else c.push({ op: 'fmt', f: b, a: n % 3 - 1 })
    }
    if (n % 5 === 0) c.push({ op: 'parse', d: 2, t: G.bytes('0b' + '1'.repeat(2 * n)) }, { op: 'fmt', f: 'b', a: 2 }, { op: 'parse', d: 2, t: G.bytes('0b' + '1'.repeat(5 * n)) }, { op: 'fmt', f: 'o', a: 2 })
    out.push(c)
  }
  // the last digit carries through any number of limbs: m 2^32k + r with a last digit above r
  for (let L = 1; L <= 24; L++) {
    const c = []
    for (let m = 1n; m <= 10n; m++) for (const r of [0n, 1n, 3n, 6n]) { const v = (m << BigInt(32 * L)) + r; if (v % 10n > r) c.push({ op: 'parse', d: 0, t: G.bytes(v.toString()) }, { op: 'parse', d: 1, t: G.bytes((v - 1n).toString()) }) }
    out.push(c)
  }
  // runs of signs and blanks in front
  for (const r of ['+', ' ', '+ ', '\t']) { const c = []; for (let n = 1; n <= 40; n++) c.push({ op: 'parse', d: 0, t: G.bytes(r.repeat(n) + '12') }, { op: 'parse', d: 1, t: G.bytes(r.repeat(n) + '0x1f') }, { op: 'parse', d: 1, t: G.bytes(r.repeat(n) + (n & 1 ? '' : '-5')) }); out.push(c) }
  return out
}
module.exports = { id: 'N08', machine: 'nat', trace, fixed, count: t => t === 'quick' ? 8000 : 48000 }
