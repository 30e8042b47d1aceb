// IEEE 754 binary interchange formats as exact rationals.
module ieee {
  import core.* from "./core"

  // precision p (implicit bit included) and exponent field width of the format
  type Fmt = { p: int, w: int }
  pure val F64: Fmt = { p: 53, w: 11 }
  pure val F32: Fmt = { p: 24, w: 8 }
  pure def bias(f: Fmt): int = 2^(f.w - 1) - 1
  // exponent of the unit in the last place of the subnormals
  pure def kmin(f: Fmt): int = 2 - bias(f) - f.p
  pure def infBits(f: Fmt): int = (2^f.w - 1) * 2^(f.p - 1)
  pure def signBit(f: Fmt): int = 2^(f.p - 1 + f.w)

  type Cls = { nan: bool, inf: bool, neg: bool, num: int, den: int }
  // |value| = num / den
  pure def decode(f: Fmt, bits: int): Cls = {
    pure val neg = bits >= signBit(f)
    pure val b = bits % signBit(f)
    pure val ex = b / 2^(f.p - 1)
    pure val fr = b % 2^(f.p - 1)
    if (b > infBits(f)) { nan: true, inf: false, neg: neg, num: 0, den: 1 }
    else if (b == infBits(f)) { nan: false, inf: true, neg: neg, num: 0, den: 1 }
    else {
      pure val m = if (ex == 0) fr else fr + 2^(f.p - 1)
      pure val k = kmin(f) + imax(ex, 1) - 1
      if (k >= 0) { nan: false, inf: false, neg: neg, num: m * 2^k, den: 1 }
      else { nan: false, inf: false, neg: neg, num: m, den: 2^(-k) }
    }
  }

  pure def scale2(x: int, k: int): int = if (k > 0) x * 2^k else x
  // nearest integer to a/b, ties to even (a >= 0, b > 0)
  pure def nearestEven(a: int, b: int): int = {
    pure val q = a / b
    pure val r = 2 * (a - q * b)
    if (r > b or (r == b and q % 2 == 1)) q + 1 else q
  }
  // floor(log2(num/den)), num, den > 0
  pure def flog2(num: int, den: int): int = {
    pure val n = blen(num) - blen(den)
    if (scale2(num, -n) >= scale2(den, n)) n else n - 1
  }
  // bits of the non-negative value nearest to num/den, ties to even, overflow to infinity
  pure def nearestBits(f: Fmt, num: int, den: int): int =
    if (num == 0) 0
    else {
      pure val k = imax(flog2(num, den) - (f.p - 1), kmin(f))
      pure val m = nearestEven(scale2(num, -k), scale2(den, k))
      pure val b = if (m < 2^(f.p - 1)) m else (k - kmin(f) + 1) * 2^(f.p - 1) + (m - 2^(f.p - 1))
      imin(b, infBits(f))
    }
}
