'use strict'
const W = 4294967296n
const EDGE = [0n, 1n, 2n, 0x7fffffffn, 0x80000000n, 0xfffffffen, 0xffffffffn]
function limb(rng) { return rng.chance(0.5) ? rng.pick(EDGE) : rng.chance(0.2) ? BigInt(rng.below(256)) : BigInt(rng.u32()) }
function limbsOf(rng, n) {
  const k = rng.below(8)
  const out = []
  if (k === 0) { for (let i = 0; i < n; i++) out.push(0xffffffffn) }
  else if (k === 1) { for (let i = 0; i < n; i++) out.push(0n); if (n) out[n - 1] = 1n << BigInt(rng.below(32)) }
  else if (k === 2) { // 2^k - 1
    for (let i = 0; i < n; i++) out.push(0xffffffffn); if (n) out[n - 1] = (1n << BigInt(rng.int(1, 32))) - 1n }
  else if (k === 3) { for (let i = 0; i < n; i++) out.push(0n); for (let j = 0; j < 3 && n; j++) out[rng.below(n)] = limb(rng); if (n && out[n - 1] === 0n) out[n - 1] = 1n }
  else if (k === 4) { for (let i = 0; i < n; i++) out.push(BigInt(rng.u32())) }
  else { for (let i = 0; i < n; i++) out.push(limb(rng)); if (n && out[n - 1] === 0n) out[n - 1] = rng.pick(EDGE.slice(1)) }
  return out
}
function val(limbs) { let v = 0n; for (let i = limbs.length - 1; i >= 0; i--) v = v * W + limbs[i]; return v }
function toLimbs(v) { const o = []; if (v === 0n) return [0n]; while (v > 0n) { o.push(v % W); v /= W } return o }
// natural number with about n limbs
function nat(rng, n) { return val(limbsOf(rng, n)) }
function tinyLen(rng) { return rng.wpick([[4, 1], [4, 2], [3, 3], [2, 4], [2, 5], [1, 6], [1, 8], [1, 9]]) }
// mostly a few limbs; now and then past every fixed-size buffer or threshold an implementation may have
function smallLen(rng) { return rng.chance(0.955) ? tinyLen(rng) : rng.chance(0.75) ? rng.int(7, 40) : rng.chance(0.8) ? rng.int(33, 90) : rng.int(90, 260) }
// decimal text costs cubic time in the code: shorter, so that an operation stays far below its CPU budget
function textLen(rng) { return Math.min(smallLen(rng), 80 + rng.below(30)) }
// a shift count or bit index far beyond any value
const FAR = [4096, 65535, 65536, 65537, 1048576, 2147483647, 2147483648, 4294967295, 4294967296, 4294967297, 4294967328, 8589934592, 137438953472n, 9223372036854775807n, 9223372036854775808n, 18446744073709551584n, 18446744073709551615n]
// a value near x: equal, +-1, +-2^k, times 2^k, same top limb
function near(rng, x) {
  const k = BigInt(rng.below(rng.chance(0.5) ? 70 : 4 * x.toString(16).length + 33))
  switch (rng.below(10)) {
    case 0: return x
    case 1: return x + 1n
    case 2: return x > 0n ? x - 1n : 0n
    case 3: return x + (1n << k)
    case 4: return x > (1n << k) ? x - (1n << k) : x
    case 5: return x << k
    case 6: return x >> k
    case 7: { const p = 1n << BigInt(4 * x.toString(16).length + rng.below(33)); return p - x - BigInt(rng.below(2)) } // the sum is (just below) a power of two
    case 8: { const h = BigInt(rng.below(4 * x.toString(16).length)); return (x >> h << h) + (BigInt(rng.u32()) & ((1n << h) - 1n)) } // same head, other tail
    default: return x ^ (1n << k)
  }
}
const bytes = s => [...Buffer.from(s, 'utf8')]
// the constructor is chosen by the value
const via = (v, d, l) => l[Number(((v < 0n ? -v : v) + BigInt(d)) % 1009n) % l.length]
const setv = (d, v, f) => ({ op: 'set', f: f || via(v, d, ['vec', 'rvec', 'slice']), d, s: toLimbs(v) })
// signed
const zint = (rng, n) => { const v = nat(rng, n); return rng.chance(0.5) ? -v : v }
const setz = (d, v, f) => ({ op: 'set', f: f || via(v, d, ['vec', 'rvec', 'slice', 'nat']), d, s: toLimbs(v < 0n ? -v : v), k: v < 0n ? 1 : 0 })
const znear = (rng, x) => { const a = near(rng, x < 0n ? -x : x); return rng.chance(0.5) ? -a : a }
// the inverse of k modulo n (a choice of input), null if there is none
function inv(k, n) {
  let [a, b, u, v] = [((k % n) + n) % n, n, 1n, 0n]
  while (b) { const q = a / b; [a, b, u, v] = [b, a - q * b, v, u - q * v] }
  return a === 1n ? ((u % n) + n) % n : null
}
module.exports = { inv, W, EDGE, limb, limbsOf, val, toLimbs, nat, smallLen, textLen, tinyLen, FAR, near, bytes, setv, zint, setz, znear }
