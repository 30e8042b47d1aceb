// Mathematical core shared by all rmath machines.  Everything here is about unbounded
// integers; nothing mentions limbs, words or algorithms of the implementation.
module core {
  // One public call of the implementation: operation `op` (variant `f`), operand slots, integer
  // immediates k n m, byte/text immediate t, integer list s, ghost data g (known to the
  // specification only), and the observation: status, returned integers, returned text, and a
  // projection of every handle.
  type Ev = { op: str, f: str, d: int, a: int, b: int, c: int, k: int, n: int, m: int,
              t: List[int], s: List[int], g: List[int],
              st: str, r: List[int], rt: List[int], obs: List[List[int]] }
  pure val noEv: Ev = { op: "reset", f: "", d: 0, a: 0, b: 0, c: 0, k: 0, n: 0, m: 0, t: [], s: [], g: [],
                        st: "ok", r: [], rt: [], obs: [] }

  // ---------------------------------------------------------------- integers
  pure def iabs(x: int): int = if (x < 0) -x else x
  pure def imax(x: int, y: int): int = if (x < y) y else x
  pure def imin(x: int, y: int): int = if (x < y) x else y
  pure def isgn(x: int): int = if (x < 0) -1 else if (x > 0) 1 else 0
  pure def b2i(b: bool): int = if (b) 1 else 0

  // floor division / modulus and truncated division / remainder, for any signs (y != 0)
  pure def tdiv(x: int, y: int): int =
    { pure val q = iabs(x) / iabs(y)  if ((x < 0) == (y < 0)) q else -q }
  pure def trem(x: int, y: int): int = x - y * tdiv(x, y)
  pure def fdiv(x: int, y: int): int = {
    pure val q = tdiv(x, y)
    if (x != q * y and ((x < 0) != (y < 0))) q - 1 else q
  }
  pure def fmod(x: int, y: int): int = x - y * fdiv(x, y)
  // Euclidean: 0 <= r < |y|
  pure def erem(x: int, y: int): int = fmod(x, iabs(y))
  pure def ediv(x: int, y: int): int = (x - erem(x, y)) / y

  pure def powz(x: int, e: int): int = if (e == 0) 1 else x^e

  // number of bits of |x|, 0 for 0
  pure val LENSTEPS: List[{ p: int, w: int }] =
    [131072, 65536, 32768, 16384, 8192, 4096, 2048, 1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1]
      .foldl([], (l, p) => l.append({ p: p, w: 2^p }))
  pure val SHORTSTEPS: List[{ p: int, w: int }] = slice(LENSTEPS, 7, 18) // enough below 2^2048
  pure def stepsFor(n: int): List[{ p: int, w: int }] = if (n < LENSTEPS[6].w) SHORTSTEPS else LENSTEPS
  pure def blen(x: int): int = {
    pure val n = iabs(x)
    if (n == 0) 0
    else 1 + stepsFor(n).foldl({ n: n, l: 0 }, (s, t) =>
      if (s.n >= t.w) { n: s.n / t.w, l: s.l + t.p } else s).l
  }
  // n is the number of 32-bit limbs of the canonical representation of v >= 0
  pure def isLimbs(n: int, v: int): bool =
    if (v == 0) n == 1 else n >= 1 and 2^(32 * (n - 1)) <= v and v < 2^(32 * n)
  // number of trailing zero bits of x != 0
  pure def tzeros(x: int): int =
    stepsFor(iabs(x)).foldl({ n: iabs(x), l: 0 }, (s, t) =>
      if (s.n % t.w == 0) { n: s.n / t.w, l: s.l + t.p } else s).l
  pure def bitAt(x: int, i: int): bool = fmod(fdiv(x, 2^i), 2) == 1

  // ---------------------------------------------------------------- bitwise
  // and on nibbles, by table; on naturals, by nibble fold; on integers, by two's complement
  pure def andBit(x: int, y: int): int = (x % 2) * (y % 2)
  pure def andNib(x: int, y: int): int =
    andBit(x, y) + 2 * andBit(x / 2, y / 2) + 4 * andBit(x / 4, y / 4) + 8 * andBit(x / 8, y / 8)
  pure val ANDT: List[int] = range(0, 256).foldl([], (l, i) => l.append(andNib(i / 16, i % 16)))
  pure def natAnd(x: int, y: int): int = {
    pure val k = (imin(blen(x), blen(y)) + 3) / 4
    range(0, k).foldl({ x: x, y: y, p: 1, r: 0 }, (s, _) => {
      x: s.x / 16, y: s.y / 16, p: s.p * 16,
      r: s.r + s.p * ANDT[(s.x % 16) * 16 + (s.y % 16)]
    }).r
  }
  pure def intAnd(x: int, y: int): int =
    if (x >= 0 and y >= 0) natAnd(x, y)
    else {
      pure val m = 2^(imax(blen(x), blen(y)) + 1)
      pure val r = natAnd(fmod(x, m), fmod(y, m))
      if (x < 0 and y < 0) r - m else r
    }
  pure def intOr(x: int, y: int): int = x + y - intAnd(x, y)
  pure def intXor(x: int, y: int): int = x + y - 2 * intAnd(x, y)
  pure def intAndNot(x: int, y: int): int = x - intAnd(x, y)

  // ---------------------------------------------------------------- number theory
  // x^e mod m (m > 0, e >= 0)
  pure def powMod(x: int, e: int, m: int): int =
    range(0, blen(e)).foldl({ b: fmod(x, m), e: e, r: 1 % m }, (s, _) => {
      b: (s.b * s.b) % m, e: s.e / 2,
      r: if (s.e % 2 == 1) (s.r * s.b) % m else s.r
    }).r
  // gcd(|x|,|y|); 2*blen iterations of Euclid always suffice
  pure def igcd(x: int, y: int): int =
    range(0, 2 * imin(blen(x), blen(y)) + 2).foldl((iabs(x), iabs(y)), (s, _) =>
      if (s._2 == 0) s else (s._2, s._1 % s._2))._1
  // x^-1 mod m, or 0 when it does not exist (m > 1)
  pure def invMod(x: int, m: int): int = {
    pure val z = range(0, 2 * blen(m) + 4).foldl({ a: fmod(x, m), b: m, u: 1, v: 0 }, (s, _) =>
      if (s.b == 0) s
      else { pure val q = s.a / s.b  { a: s.b, b: s.a - q * s.b, u: s.v, v: s.u - q * s.v } })
    if (z.a != 1) 0 else fmod(z.u, m)
  }
  pure def isIsqrt(r: int, n: int): bool = r >= 0 and r * r <= n and (r + 1) * (r + 1) > n
  // Jacobi symbol (a/n), n odd positive
  pure def jacobi(a0: int, n0: int): int = {
    pure val z = range(0, 2 * blen(n0) + blen(a0) + 4).foldl({ a: fmod(a0, n0), n: n0, t: 1 }, (s, _) =>
      if (s.a == 0) s
      else if (s.a % 2 == 0) {
        pure val k = tzeros(s.a)
        pure val flip = (k % 2 == 1) and (s.n % 8 == 3 or s.n % 8 == 5)
        { a: s.a / 2^k, n: s.n, t: if (flip) -s.t else s.t }
      } else {
        pure val flip = s.a % 4 == 3 and s.n % 4 == 3
        { a: s.n % s.a, n: s.a, t: if (flip) -s.t else s.t }
      })
    if (z.n == 1) z.t else 0
  }

  // Primality.  Below 3317044064679887385961981 the first 13 prime bases decide
  // (Sorenson-Webster); Mersenne numbers 2^p-1 are decided by Lucas-Lehmer; other big
  // inputs are only ever fed with a factorisation or a Pocklington certificate.
  pure val MRBASES: List[int] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41]
  pure def sprp(n: int, a: int): bool = {
    pure val t = tzeros(n - 1)
    pure val x0 = powMod(a, (n - 1) / 2^t, n)
    if (x0 == 1 or x0 == n - 1) true
    else range(1, t).foldl({ x: x0, ok: false }, (s, _) => {
      pure val y = (s.x * s.x) % n
      { x: y, ok: s.ok or y == n - 1 }
    }).ok
  }
  pure def isPrimeSmall(n: int): bool =
    if (n < 2) false
    else if (MRBASES.foldl(false, (b, p) => b or n == p)) true
    else if (MRBASES.foldl(false, (b, p) => b or n % p == 0)) false
    else MRBASES.foldl(true, (b, p) => b and sprp(n, p))
  pure def lucasLehmer(p: int): bool = {
    pure val m = 2^p - 1
    range(0, p - 2).foldl(4, (s, _) => (s * s - 2) % m) == 0
  }

  // Pocklington: a^(n-1) = 1 and gcd(a^((n-1)/q) - 1, n) = 1 for every listed prime q, where the product
  // of the q divides n - 1 and exceeds the square root of n
  pure def pocklington(n: int, a: int, qs: List[int]): bool = {
    pure val f = qs.foldl(1, (p, q) => p * q)
    and {
      n > 3, (n - 1) % f == 0, f * f > n, powMod(a, n - 1, n) == 1,
      qs.foldl({ ok: true, last: 0 }, (s, q) => {
        ok: s.ok and (q == s.last or (isPrimeSmall(q) and q < 3317044064679887385961981
                                      and igcd(powMod(a, (n - 1) / q, n) - 1, n) == 1)),
        last: q }).ok
    }
  }
  // What a certificate says of n: 1 prime, 0 composite, 2 nothing, 3 it is no certificate of n.
  //   []          n < 3317044064679887385961981, decided outright
  //   [p]         n = 2^p - 1, p prime
  //   [0, a, q..] Pocklington
  //   [-1]        none: composite when some base is a witness
  //   [p, q, ..]  n is the product of these factors > 1
  pure def certified(n: int, c: List[int]): int =
    if (length(c) == 0) (if (n < 3317044064679887385961981) b2i(isPrimeSmall(n)) else 3)
    else if (length(c) == 1 and c[0] == -1) (if (isPrimeSmall(n)) 2 else 0)
    else if (length(c) == 1) (if (c[0] > 2 and n == 2^c[0] - 1 and isPrimeSmall(c[0])) b2i(lucasLehmer(c[0])) else 3)
    else if (c[0] == 0) (if (length(c) > 2 and pocklington(n, c[1], slice(c, 2, length(c)))) 1 else 3)
    else if (c.foldl(1, (p, q) => p * q) == n and c.foldl(true, (b, q) => b and q > 1)) 0
    else 3

  // ---------------------------------------------------------------- text
  // strings are lists of code points
  pure def ch(c: int, lo: int, hi: int): bool = lo <= c and c <= hi
  // value of a digit character, 99 when it is none
  pure def digitOf(c: int): int =
    if (ch(c, 48, 57)) c - 48
    else if (ch(c, 97, 102)) c - 87
    else if (ch(c, 65, 70)) c - 55
    else 99
  pure def allDigits(s: List[int], base: int): bool = s.foldl(true, (b, c) => b and digitOf(c) < base)
  pure def digitsVal(s: List[int], base: int): int = s.foldl(0, (v, c) => v * base + digitOf(c))
  // s is THE canonical numeral of n >= 0 in the base: right value, no leading zero, right case
  pure def isNumeral(s: List[int], n: int, base: int, upper: bool): bool = and {
    length(s) > 0,
    allDigits(s, base),
    s.foldl(true, (b, c) => b and not(if (upper) ch(c, 97, 102) else ch(c, 65, 70))),
    length(s) == 1 or s[0] != 48,
    digitsVal(s, base) == n
  }
  pure def hasPrefix(s: List[int], p: List[int]): bool =
    length(s) >= length(p) and slice(s, 0, length(p)) == p
  pure def dropN(s: List[int], k: int): List[int] = slice(s, k, length(s))
  // byte strings
  pure def leVal(s: List[int]): int = s.foldl({ v: 0, p: 1 }, (a, b) => { v: a.v + a.p * b, p: a.p * 256 }).v
  pure def beVal(s: List[int]): int = s.foldl(0, (v, b) => v * 256 + b)
  pure def allBytes(s: List[int]): bool = s.foldl(true, (a, b) => a and ch(b, 0, 255))

  pure def lsum(l: List[int]): int = l.foldl(0, (a, b) => a + b)
  // counts of n fair draws per eighth of a range, and beyond it
  pure def eighthsHit(h: List[int], n: int): bool = and {
    length(h) == 9, h[8] == 0, lsum(h) == n, n < 400 or slice(h, 0, 8).foldl(true, (b, c) => b and c > 0)
  }
}
