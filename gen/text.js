'use strict'
const G = require('./common')
const RADIX = { b: 2, o: 8, d: 10, x: 16, X: 16 }
function numeral(rng, v, kind) {
  const s = v.toString(RADIX[kind])
  switch (kind) {
    case 'b': return rng.pick(['0b', '0B']) + s
    case 'o': return '0o' + s
    case 'x': return rng.pick(['0x', '0X']) + (rng.chance(0.3) ? [...s].map(c => rng.chance(0.5) ? c.toUpperCase() : c).join('') : s)
    case 'X': return rng.pick(['0x', '0X']) + s.toUpperCase()
    default: return s
  }
}
// leading zeros after a radix prefix are legal
function zeros(rng, s) {
  if (!/^0[bBoxX]/.test(s) || !rng.chance(0.3)) return s
  return s.slice(0, 2) + '0'.repeat(rng.int(1, 40)) + s.slice(2)
}
function natText(rng, v) {
  let s = zeros(rng, numeral(rng, v, rng.pick(['b', 'o', 'd', 'd', 'x', 'X'])))
  if (rng.chance(0.15)) s = rng.pick(['+', ' ', '+ ', ' +', '\t', '\n ', '  ']) + s
  if (rng.chance(0.1)) s = s + rng.pick([' ', '\n', '\t '])
  return s
}
// damage a numeral: the result is usually malformed; the specification decides
function damage(rng, s) {
  const i = rng.below(s.length + 1)
  const c = rng.pick(['g', 'G', '/', ':', '@', '`', '-', '+', ' ', '.', '_', '0', '9', '8', '2', 'a', 'f', 'z', 'x', 'é', '٣'])
  switch (rng.below(4)) {
    case 0: return s.slice(0, i) + c + s.slice(i)
    case 1: return s.slice(0, i) + c + s.slice(i + 1)
    case 2: return s.slice(0, i)
    default: return c + s
  }
}
module.exports = { RADIX, numeral, natText, damage, zeros }
