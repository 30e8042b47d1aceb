// The oracle checked against independent, naive definitions: every run below quantifies over a whole
// small domain.  `quint test spec/laws.qnt --main laws` evaluates them all.
module laws {
  import core.* from "./core"
  import ieee.* from "./ieee"
  import natText.* from "./nattext"
  import float as F from "./float"
  import rand as R from "./rand"

  pure val Z = (-18).to(18)
  pure val NZ = Z.exclude(Set(0))
  pure val N = 0.to(70)
  pure def allZ2(p: (int, int) => bool): bool = Z.forall(x => NZ.forall(y => p(x, y)))

  // ------------------------------------------------------------ division
  run divisionTest = all {
    assert(allZ2((x, y) => tdiv(x, y) * y + trem(x, y) == x and iabs(trem(x, y)) < iabs(y) and trem(x, y) * x >= 0)),
    assert(allZ2((x, y) => fdiv(x, y) * y + fmod(x, y) == x and iabs(fmod(x, y)) < iabs(y) and fmod(x, y) * y >= 0)),
    assert(allZ2((x, y) => ediv(x, y) * y + erem(x, y) == x and 0 <= erem(x, y) and erem(x, y) < iabs(y))),
  }

  // ------------------------------------------------------------ bits
  // x = sum of bit i of x, minus 2^n for a negative x
  pure def ofBits(bit: (int) => bool, n: int): int =
    range(0, n).foldl(0, (a, i) => a + (if (bit(i)) 2^i else 0)) - (if (bit(n)) 2^n else 0)
  run bitsTest = all {
    assert(Z.forall(x => ofBits(i => bitAt(x, i), 7) == x)),
    assert(Z.forall(x => Z.forall(y => intAnd(x, y) == ofBits(i => bitAt(x, i) and bitAt(y, i), 7)))),
    assert(Z.forall(x => Z.forall(y => intOr(x, y) == ofBits(i => bitAt(x, i) or bitAt(y, i), 7)))),
    assert(Z.forall(x => Z.forall(y => intXor(x, y) == ofBits(i => bitAt(x, i) != bitAt(y, i), 7)))),
    assert(Z.forall(x => Z.forall(y => intAndNot(x, y) == ofBits(i => bitAt(x, i) and not(bitAt(y, i)), 7)))),
    assert(0.to(600).forall(x => 2^blen(x) > x and (x == 0 or 2^(blen(x) - 1) <= x))),
    assert(1.to(600).forall(x => x % 2^tzeros(x) == 0 and (x / 2^tzeros(x)) % 2 == 1)),
    assert(1.to(40).forall(e => blen(2^(e * 97)) == e * 97 + 1 and blen(2^(e * 97) - 1) == e * 97 and tzeros(3 * 2^(e * 97)) == e * 97)),
    assert(0.to(6).forall(n => Set(0, 1, 4294967295, 4294967296, 2^64 - 1, 2^64, 2^96 - 1).forall(v =>
      isLimbs(n, v) == (n == imax(1, (blen(v) + 31) / 32))))),
  }

  // ------------------------------------------------------------ number theory
  pure def divides(d: int, x: int): bool = x % d == 0
  pure def naivePrime(n: int): bool = n > 1 and 2.to(n - 1).forall(d => d * d > n or not(divides(d, n)))
  pure def legendre(a: int, p: int): int =
    if (fmod(a, p) == 0) 0 else if (1.to(p - 1).exists(x => fmod(x * x - a, p) == 0)) 1 else -1
  pure val ODDPRIMES: List[int] = [3, 5, 7, 11, 13, 17]
  pure def jacobiByFactors(a: int, n: int): int =
    ODDPRIMES.foldl({ n: n, j: 1 }, (s, p) =>
      range(0, 4).foldl(s, (t, _) => if (t.n % p == 0) { n: t.n / p, j: t.j * legendre(a, p) } else t)).j
  run numberTheoryTest = all {
    assert(0.to(24).forall(x => 1.to(24).forall(y => {
      pure val g = igcd(x, y)
      divides(g, x) and divides(g, y) and 1.to(24).forall(d => divides(d, x) and divides(d, y) implies divides(d, g))
    }))),
    assert(Z.forall(x => igcd(x, 0) == iabs(x) and igcd(0, x) == iabs(x))),
    assert(Z.forall(x => 2.to(24).forall(m => {
      pure val i = invMod(x, m)
      if (igcd(x, m) == 1) 0 <= i and i < m and fmod(x * i, m) == 1 % m else i == 0
    }))),
    assert(Z.forall(x => 0.to(9).forall(e => 1.to(15).forall(m => powMod(x, e, m) == fmod(powz(x, e), m))))),
    assert(N.forall(n => 0.to(9).filter(r => isIsqrt(r, n)).size() == 1)),
    assert(Set(1, 3, 5, 7, 9, 11, 13, 15, 17, 21, 25, 27, 33, 35, 39, 45, 49, 51, 55, 63, 65, 75, 81, 105)
      .forall(n => (-12).to(30).forall(a => jacobi(a, n) == jacobiByFactors(a, n)))),
    assert(0.to(400).forall(n => isPrimeSmall(n) == naivePrime(n))),
    assert(Set(3, 5, 7, 11, 13, 17, 19).forall(p => lucasLehmer(p) == isPrimeSmall(2^p - 1))),
    // a Pocklington certificate exists for primes only
    assert(5.to(130).forall(n => Set(2, 3, 5).forall(a => Set([2, 2, 2], [5], [7], [11], [2, 3], [3], [13]).forall(qs =>
      pocklington(n, a, qs) implies naivePrime(n))))),
    assert(pocklington(11, 2, [5]) and pocklington(71, 3, [7, 5]) and not(pocklington(91, 3, [5, 3]))),
    assert(certified(91, [7, 13]) == 0 and certified(91, [7, 12]) == 3 and certified(97, []) == 1 and certified(127, [7]) == 1
      and certified(2047, [11]) == 0 and certified(91, [-1]) == 0 and certified(97, [-1]) == 2 and certified(71, [0, 3, 7, 5]) == 1),
  }

  // ------------------------------------------------------------ numerals
  pure val ALPH = Set(48, 49, 50, 57, 97, 70, 120, 98, 45, 32)
  run numeralTest = all {
    // exactly one numeral of up to three characters per value and base, and it reads back
    assert(Set(2, 8, 10, 16).forall(b => 0.to(7).forall(n => {
      pure val ts = ALPH.map(x => [x]).union(tuples(ALPH, ALPH).map(((x, y)) => [x, y]))
        .union(tuples(ALPH, ALPH, ALPH).map(((x, y, z)) => [x, y, z])).filter(t => isNumeral(t, n, b, false))
      ts.size() <= 1 and ts.forall(t => digitsVal(t, b) == n)
    }))),
    assert(tuples(0.to(255), Set(0, 1, 255)).forall(((x, y)) => leVal([x, y]) == beVal([y, x]) and leVal([x, y]) == x + 256 * y)),
    assert(parseNat([48, 120, 49, 102]) == { ok: true, nan: false, v: 31 } and not(parseNat([48, 49]).ok) and parseNat([48]).v == 0),
  }

  // ------------------------------------------------------------ IEEE formats, on a 4-bit-significand toy format
  pure val TOY: Fmt = { p: 3, w: 3 }
  // |decode(b) - num/den| compared between two encodings
  pure def dist(b: int, num: int, den: int): (int, int) = {
    pure val d = decode(TOY, b)
    (iabs(d.num * den - num * d.den), d.den * den)
  }
  pure def closer(x: (int, int), y: (int, int)): bool = x._1 * y._2 < y._1 * x._2
  pure val FIN = 0.to(infBits(TOY) - 1)
  pure val LARGEST = decode(TOY, infBits(TOY) - 1)
  run ieeeTest = all {
    // strictly increasing encodings
    assert(0.to(infBits(TOY) - 2).forall(b => decode(TOY, b).num * decode(TOY, b + 1).den < decode(TOY, b + 1).num * decode(TOY, b).den)),
    // nearest, ties to the even encoding, overflow from half a unit above the largest
    assert(0.to(80).forall(num => Set(1, 2, 3, 5, 7, 16, 64).forall(den => {
      pure val b = nearestBits(TOY, num, den)
      if (b == infBits(TOY)) 2 * (num * LARGEST.den - LARGEST.num * den) >= (LARGEST.num - decode(TOY, infBits(TOY) - 2).num) * den
      else FIN.forall(c => not(closer(dist(c, num, den), dist(b, num, den)))
        and (c != b and not(closer(dist(b, num, den), dist(c, num, den))) implies b % 2 == 0))
    }))),
    assert(FIN.forall(b => nearestBits(TOY, decode(TOY, b).num, decode(TOY, b).den) == b)),
  }

  // ------------------------------------------------------------ Float rounding at precision 3
  pure val P3 = 1.to(48).filter(m => blen(m / 2^tzeros(m)) <= 3)
  // candidates around num/4 at precision 3, by definition of every mode
  pure def below(num: int): int = P3.filter(m => 4 * m <= num).fold(0, (a, b) => imax(a, b))
  pure def above(num: int): int = P3.filter(m => 4 * m >= num).fold(1000, (a, b) => imin(a, b))
  pure def byMode(mode: int, neg: bool, num: int): int = {
    pure val lo = below(num)
    pure val hi = above(num)
    pure val c = isgn((4 * hi - num) - (num - 4 * lo)) // > 0: lo is nearer
    if (lo == hi) lo
    else if (mode == 2) lo
    else if (mode == 3) hi
    else if (mode == 4) (if (neg) hi else lo)
    else if (mode == 5) (if (neg) lo else hi)
    else if (c > 0) lo else if (c < 0) hi
    else if (mode == 1) hi
    // even: the one that is a multiple of twice the spacing
    else { pure val u = hi - lo  if ((lo / u) % 2 == 0) lo else hi }
  }
  run roundingTest = all {
    assert(0.to(5).forall(mode => Set(true, false).forall(neg => 16.to(128).forall(num => {
      pure val r = F::rounded({ ...F::DEFAULT, prec: 3, mode: mode }, neg, num, 4, 0)
      pure val v = r.m * 2^r.k
      and {
        r.form == "finite", v == byMode(mode, neg, num), r.neg == neg, r.m % 2 == 1,
        r.acc == (if (neg) -1 else 1) * isgn(4 * v - num)
      }
    })))),
    // x - y with x == y, and sums of exact values, are exact
    assert(1.to(9).forall(a => 1.to(9).forall(b => {
      pure val x = F::ofInt(a)
      pure val y = F::ofInt(b)
      F::fn2("add", x, y, false).m * 2^(F::fn2("add", x, y, false).k) == a + b
        and (a != b implies F::cmpSign(F::fn2("sub", x, y, false), F::ofInt(a - b)) == 0)
    }))),
  }

  // ------------------------------------------------------------ generators
  run generatorTest = all {
    // subtract with carry keeps its words in range
    assert(1.to(3).forall(w => 0.to(9).forall(seed => R::draws(R::build("lf", 32, [w, 1, 3], seed), 20).l
      .foldl(true, (b, x) => b and 0 <= x and x < 2^w)))),
    // the Mersenne recurrence is periodic on the (w n - r) bits that matter: drawing is injective on windows
    assert(0.to(30).forall(seed => R::draws(R::build("mt", 32, [3, 2, 1, 1, 5, 1, 7, 1, 5, 2, 4, 1, 3], seed), 20).l
      .foldl(true, (b, x) => b and 0 <= x and x < 8))),
    // the latch: after an error nothing but errors until it is cleared
    assert(R::latch([5, -1, 6], [0, 0, 2, 0, 1, 2, 0]) == [5, -1, 1, -1, 0, 6]),
  }
}
