// The Float machine: four private binary floating-point values of arbitrary precision.
// A finite value is (-1)^neg * m * 2^k with m odd; every value carries its precision, rounding
// mode and the accuracy of the operation that produced it.
module float {
  import core.* from "./core"
  import natText.* from "./nattext"
  import ieee.* from "./ieee"

  // modes: 0 nearest even, 1 nearest away, 2 to zero, 3 away from zero, 4 to -Inf, 5 to +Inf
  // acc: -1 below, 0 exact, 1 above, 9 not specified
  type Val = { form: str, neg: bool, m: int, k: int, prec: int, mode: int, acc: int }
  type State = List[Val]
  type Res = { st: str, r: List[int], rt: List[int], s: State, chk: bool }

  pure val HANDLES = 4
  pure val MAXEXP = 2147483647
  pure val MINEXP = -2147483648
  pure val MAXPREC = 4294967295
  pure val DEFAULT: Val = { form: "zero", neg: false, m: 0, k: 0, prec: 0, mode: 0, acc: 0 }
  pure val NaN: Val = { ...DEFAULT, form: "nan" }
  pure val initState: State = [DEFAULT, DEFAULT, DEFAULT, DEFAULT]

  pure def isFin(x: Val): bool = x.form == "finite"
  pure def isZero(x: Val): bool = x.form == "zero"
  pure def isInf(x: Val): bool = x.form == "inf"
  pure def isNan(x: Val): bool = x.form == "nan"
  // 2^(exp-1) <= |x| < 2^exp
  pure def expOf(x: Val): int = x.k + blen(x.m)

  // observed: [form, neg, limbs, mantissa, exp, prec, mode, acc]; the mantissa is a fraction in
  // [1/2, 1) of `limbs` 32-bit words
  pure def seen(x: Val, o: List[int]): bool =
    if (length(o) != 8) false
    else if (isNan(x)) o[0] == 3
    else and {
      o[1] == b2i(x.neg), o[5] == x.prec, o[6] == x.mode, x.acc == 9 or o[7] == x.acc,
      if (isZero(x)) o[0] == 0
      else if (isInf(x)) o[0] == 2
      else and {
        o[0] == 1,
        // a normalised mantissa (top bit set); the exponent is then determined by the value
        o[2] >= 1, 2^(32 * o[2] - 1) <= o[3], o[3] < 2^(32 * o[2]),
        // same value: mantissa * 2^(exp - 32 limbs) = m * 2^k; m is odd, so the difference is less than a mantissa
        ch(o[4] - x.k, -8, 1000000),
        scale2(o[3], o[4] - 32 * o[2] - x.k) == scale2(x.m, x.k - o[4] + 32 * o[2]),
      }
    }
  pure def projects(s: State, obs: List[List[int]]): bool = and {
    length(obs) == HANDLES,
    range(0, HANDLES).foldl(true, (b, h) => b and seen(s[h], obs[h]))
  }
  // what a handle shows (used where the specification leaves a choice)
  pure def odd(m: int, k: int): { m: int, k: int } =
    if (m == 0) { m: 0, k: 0 } else { pure val t = tzeros(m)  { m: m / 2^t, k: k + t } }
  pure def shown(e: Ev, h: int): Val =
    if (length(e.obs) <= h) NaN
    else {
      pure val o = e.obs[h]
      pure val x = { ...DEFAULT, neg: o[1] == 1, prec: o[5], mode: o[6], acc: o[7] }
      if (o[0] == 0) x
      else if (o[0] == 2) { ...x, form: "inf" }
      else if (o[0] == 3) NaN
      else { pure val z = odd(o[3], o[4] - 32 * o[2])  { ...x, form: "finite", m: z.m, k: z.k } }
    }
  pure def shownNeg(e: Ev, h: int): bool = length(e.obs) > h and e.obs[h][1] == 1

  // ------------------------------------------------------------ rounding
  // whether the magnitude is incremented; c = sign of (rest - 1/2) where 0 < rest < 1
  pure def up(mode: int, neg: bool, c: int, isOdd: bool): bool =
    if (mode == 0) c > 0 or (c == 0 and isOdd)
    else if (mode == 1) c >= 0
    else if (mode == 2) false
    else if (mode == 3) true
    else if (mode == 4) neg
    else not(neg)
  // (-1)^neg * num/den * 2^k correctly rounded to x.prec bits under x.mode (num, den > 0)
  pure def rounded(x: Val, neg: bool, num: int, den: int, k: int): Val = {
    pure val l = flog2(num, den)
    // an integer that fits needs no scaling
    pure val sft = if (den == 1 and l < x.prec) 0 else x.prec - 1 - l
    pure val a = scale2(num, sft)
    pure val b = scale2(den, -sft)
    pure val q = a / b
    pure val r = a - q * b
    pure val inc = r != 0 and up(x.mode, neg, isgn(2 * r - b), q % 2 == 1)
    pure val z = odd(if (inc) q + 1 else q, k - sft)
    pure val acc = if (r == 0) 0 else if (inc != neg) 1 else -1
    if (k + l + 1 < MINEXP) { ...x, form: "zero", neg: neg, m: 0, k: 0, acc: if (neg) 1 else -1 }
    else if (z.k + blen(z.m) > MAXEXP) { ...x, form: "inf", neg: neg, m: 0, k: 0, acc: if (neg) -1 else 1 }
    else { ...x, form: "finite", neg: neg, m: z.m, k: z.k, acc: acc }
  }
  pure def zeroOf(x: Val, neg: bool): Val = { ...x, form: "zero", neg: neg, m: 0, k: 0, acc: 0 }
  pure def infOf(x: Val, neg: bool): Val = { ...x, form: "inf", neg: neg, m: 0, k: 0, acc: 0 }
  // |y| with the given sign in the format of x
  pure def settled(x: Val, y: Val, neg: bool): Val =
    if (isZero(y)) zeroOf(x, neg) else if (isInf(y)) infOf(x, neg) else rounded(x, neg, y.m, 1, y.k)

  // ------------------------------------------------------------ arithmetic
  // an operation takes precision (unless 0) and mode from its left operand
  pure def fmtOf(x: Val, y: Val): Val = if (x.prec == 0) { ...x, prec: y.prec } else x
  // x + y with the sign of y replaced by yneg; zneg: sign of a zero the specification leaves open
  pure def plus(x0: Val, y: Val, yneg: bool, zneg: bool): Val = {
    pure val x = fmtOf(x0, y)
    if (isNan(x) or isNan(y)) NaN
    else if (isInf(x) and isInf(y)) (if (x.neg == yneg) infOf(x, x.neg) else NaN)
    else if (isInf(x)) infOf(x, x.neg)
    else if (isInf(y)) infOf(x, yneg)
    else if (isZero(x) and isZero(y))
      zeroOf(x, if (x.neg == yneg) x.neg else if (x.mode == 4) zneg else false)
    else if (isZero(y)) settled(x, x, x.neg)
    else if (isZero(x)) settled(x, y, yneg)
    else {
      pure val k = imin(x.k, y.k)
      pure val v = (if (x.neg) -1 else 1) * x.m * 2^(x.k - k) + (if (yneg) -1 else 1) * y.m * 2^(y.k - k)
      if (v == 0) zeroOf(x, x.mode == 4) else rounded(x, v < 0, iabs(v), 1, k)
    }
  }
  pure def times(x0: Val, y: Val): Val = {
    pure val x = fmtOf(x0, y)
    pure val n = x.neg != y.neg
    if (isNan(x) or isNan(y)) NaN
    else if ((isZero(x) and isInf(y)) or (isInf(x) and isZero(y))) NaN
    else if (isInf(x) or isInf(y)) infOf(x, n)
    else if (isZero(x) or isZero(y)) zeroOf(x, n)
    else rounded(x, n, x.m * y.m, 1, x.k + y.k)
  }
  pure def over(x0: Val, y: Val): Val = {
    pure val x = fmtOf(x0, y)
    pure val n = x.neg != y.neg
    if (isNan(x) or isNan(y)) NaN
    else if ((isZero(x) and isZero(y)) or (isInf(x) and isInf(y))) NaN
    else if (isInf(x) or isZero(y)) infOf(x, n)
    else if (isZero(x) or isInf(y)) zeroOf(x, n)
    else rounded(x, n, x.m, y.m, x.k - y.k)
  }
  pure def fn2(f: str, x: Val, y: Val, zneg: bool): Val =
    if (f == "add") plus(x, y, y.neg, zneg)
    else if (f == "sub") plus(x, y, not(y.neg), zneg)
    else if (f == "mul") times(x, y)
    else over(x, y)

  // ------------------------------------------------------------ order
  // sign of |x| - |y|, both finite
  pure def ucmp(x: Val, y: Val): int =
    if (expOf(x) != expOf(y)) isgn(expOf(x) - expOf(y))
    else { pure val k = imin(x.k, y.k)  isgn(x.m * 2^(x.k - k) - y.m * 2^(y.k - k)) }
  pure def rank(x: Val): int =
    if (isZero(x)) 0 else (if (x.neg) -1 else 1) * (if (isInf(x)) 2 else 1)
  pure def cmpSign(x: Val, y: Val): int =
    if (rank(x) != rank(y)) isgn(rank(x) - rank(y))
    else if (rank(x) == 1) ucmp(x, y)
    else if (rank(x) == -1) ucmp(y, x)
    else 0
  pure def cmpRet(x: Val, y: Val): List[int] =
    if (isNan(x) or isNan(y)) [9, 0, 1, 0, 0, 0, 0]
    else {
      pure val d = cmpSign(x, y)
      [d, b2i(d == 0), b2i(d != 0), b2i(d < 0), b2i(d <= 0), b2i(d > 0), b2i(d >= 0)]
    }
  pure def isInt(x: Val): bool = isZero(x) or (isFin(x) and x.k >= 0)
  pure def minPrec(x: Val): int = if (isFin(x)) blen(x.m) else 0

  // ------------------------------------------------------------ conversions
  // an integer in a fresh Float: precision max(64, bits), never inexact
  pure def ofInt(v: int): Val = {
    pure val x = { ...DEFAULT, prec: imax(64, blen(v)) }
    if (v == 0) x else rounded(x, v < 0, iabs(v), 1, 0)
  }
  // small machine integers: precision 64
  pure def ofFrac(p: int, q: int): Val = {
    pure val g = igcd(p, q)
    pure val a = tdiv(p, g)
    pure val b = tdiv(q, g)
    if (b == 1) ofInt(a)
    else rounded({ ...DEFAULT, prec: imax(64, imax(blen(a), blen(b))) }, a < 0, iabs(a), b, 0)
  }
  pure def limbsInt(l: List[int]): int = l.foldl({ v: 0, p: 1 }, (a, b) => { v: a.v + a.p * b, p: a.p * 4294967296 }).v
  // nearest f32/f64 (ties to even) and the sign of (result - x)
  pure def toFloat(f: Fmt, x: Val): List[int] = {
    pure val sb = if (x.neg) signBit(f) else 0
    if (isZero(x)) [sb, 0]
    else if (isInf(x)) [sb + infBits(f), 0]
    else if (expOf(x) > 3000) [sb + infBits(f), if (x.neg) -1 else 1]
    else if (expOf(x) < -3000) [sb, if (x.neg) 1 else -1]
    else {
      pure val num = scale2(x.m, x.k)
      pure val den = scale2(1, -x.k)
      pure val b = nearestBits(f, num, den)
      pure val d = decode(f, b)
      pure val c = if (d.inf) 1 else isgn(d.num * den - num * d.den)
      [sb + b, if (x.neg) -c else c]
    }
  }
  // truncation toward zero into [lo, hi], and the sign of (result - x)
  pure def truncTo(x: Val, lo: int, hi: int): List[int] =
    if (isZero(x)) [0, 0]
    else if (isInf(x) or expOf(x) > 200) (if (x.neg) [lo, 1] else [hi, -1])
    else {
      pure val t = if (x.k >= 0) x.m * 2^x.k else if (expOf(x) <= 0) 0 else x.m / 2^(-x.k)
      pure val v = if (x.neg) -t else t
      pure val exact = x.k >= 0
      if (v < lo) [lo, 1]
      else if (v > hi) [hi, -1]
      else [v, if (exact) 0 else if (x.neg) 1 else -1]
    }

  // ------------------------------------------------------------ text
  pure def indexOf(t: List[int], c: int): int =
    t.foldl({ i: 0, at: -1 }, (s, x) => { i: s.i + 1, at: if (s.at == -1 and x == c) s.i else s.at }).at
  // v * 10^d for v = m * 2^k, as a nearest-even integer
  pure def scaled10(x: Val, d: int): int =
    nearestEven(scale2(x.m, x.k) * (if (d > 0) 10^d else 1), scale2(1, -x.k) * (if (d < 0) 10^(-d) else 1))
  // 10^d <= |x|
  pure def atLeast10(x: Val, d: int): bool =
    scale2(x.m, x.k) * (if (d < 0) 10^(-d) else 1) >= scale2(1, -x.k) * (if (d > 0) 10^d else 1)
  // d.ddd e dd : n+1 significant digits, nearest, ties to even; at least two exponent digits
  pure def expFmtOk(x: Val, n: int, ec: int, t: List[int]): bool = {
    pure val i = indexOf(t, ec)
    if (i < 1) false
    else {
      pure val man = slice(t, 0, i)
      pure val ex = dropN(t, i + 1)
      pure val eneg = length(ex) > 0 and ex[0] == 45
      pure val exd = if (eneg) dropN(ex, 1) else if (length(ex) > 0 and ex[0] == 43) dropN(ex, 1) else ex
      pure val shape = and {
        if (n == 0) length(man) == 1 else length(man) == n + 2 and man[1] == 46,
        allDigits([man[0]], 10), n == 0 or allDigits(dropN(man, 2), 10),
        length(exd) >= 2, allDigits(exd, 10), length(exd) == 2 or exd[0] != 48,
      }
      if (not(shape)) false
      else {
        pure val N = digitsVal([man[0]].concat(if (n == 0) [] else dropN(man, 2)), 10)
        pure val e10 = if (eneg) -digitsVal(exd, 10) else digitsVal(exd, 10)
        if (iabs(e10) > 20000) false
        else if (atLeast10(x, e10)) not(atLeast10(x, e10 + 1)) and N == scaled10(x, n - e10)
        else atLeast10(x, e10 - 1) and N == 10^n and scaled10(x, n - e10 + 1) == 10^(n + 1)
      }
    }
  }
  // ddd.ddd with n fractional digits
  pure def fixFmtOk(x: Val, n: int, t: List[int]): bool = {
    pure val i = indexOf(t, 46)
    if (i < 1 or n < 1) false
    else {
      pure val ip = slice(t, 0, i)
      pure val fp = dropN(t, i + 1)
      and {
        allDigits(ip, 10), allDigits(fp, 10), length(ip) == 1 or ip[0] != 48, length(fp) == n,
        digitsVal(ip.concat(fp), 10) == scaled10(x, n)
      }
    }
  }
  pure val TINF: List[int] = [73, 110, 102]
  pure def fmtOk(f: str, n: int, x: Val, t: List[int]): bool =
    if (isNan(x)) t == TNAN
    else if (isInf(x)) t == (if (x.neg) [45] else [43]).concat(TINF)
    // the sign of a zero may be shown or not
    else if (isZero(x)) t == [48] or (x.neg and t == [45, 48])
    else if (x.neg and (length(t) == 0 or t[0] != 45)) false
    else {
      pure val u = if (x.neg) dropN(t, 1) else t
      if (f == "e") expFmtOk(x, if (n < 0) 7 else n, 101, u)
      else if (f == "E") expFmtOk(x, if (n < 0) 7 else n, 69, u)
      else fixFmtOk(x, x.prec, u)
    }

  // accepted: integers as BigInt accepts them; decimals [+-] digits [. digits] [(e|E) [+-] digits]
  // with a digit before the exponent.  Texts with inner blanks or doubled signs are not specified.
  type FText = { kind: str, neg: bool, p: int, q: int }
  pure def ft(kind: str): FText = { kind: kind, neg: false, p: 0, q: 1 }
  pure def isSign(c: int): bool = c == 43 or c == 45
  pure def dropSign(t: List[int]): List[int] = if (length(t) > 0 and isSign(t[0])) dropN(t, 1) else t
  pure def isNeg(t: List[int]): bool = length(t) > 0 and t[0] == 45
  pure def odd2(t: List[int]): bool = // blanks, or a '+' that follows a sign or a blank
    t.foldl({ b: false, p: 0 }, (s, c) => { b: s.b or isBlank(c) or (c == 43 and isSign(s.p)), p: c }).b
  pure def isRadix(t: List[int]): bool = // 0b 0B 0o 0x 0X
    length(t) >= 2 and t[0] == 48 and (t[1] == 98 or t[1] == 66 or t[1] == 111 or t[1] == 120 or t[1] == 88)
  pure def parseText(t0: List[int]): FText = {
    pure val t = trimBlank(t0)
    pure val e1 = indexOf(t, 101)
    pure val e2 = indexOf(t, 69)
    pure val dot0 = indexOf(t, 46)
    if (odd2(t)) ft("open")
    else if ((dot0 == -1 and e1 == -1 and e2 == -1) or isRadix(dropSign(t))) {
      pure val p = parseNat(if (isNeg(t)) dropN(t, 1) else t)
      if (length(t) == 0 or not(p.ok)) ft("err")
      else if (p.nan) ft("open")
      else { kind: "int", neg: isNeg(t), p: p.v, q: 1 }
    }
    else {
      pure val u = dropSign(t)
      pure val e = if (e1 == -1) e2 else if (e2 == -1) e1 else imin(e1, e2)
      pure val k0 = length(t) - length(u)
      pure val man = if (e == -1) u else slice(u, 0, imax(0, e - k0))
      pure val ex = if (e == -1) [48] else dropN(t, e + 1)
      pure val dot = indexOf(man, 46)
      pure val ip = if (dot == -1) man else slice(man, 0, dot)
      pure val fp = if (dot == -1) [] else dropN(man, dot + 1)
      pure val xd = dropSign(ex)
      if (length(ip) + length(fp) == 0 or not(allDigits(ip, 10)) or not(allDigits(fp, 10))
          or length(xd) == 0 or not(allDigits(xd, 10))) ft("err")
      else {
        pure val m = digitsVal(ip.concat(fp), 10)
        pure val x = if (isNeg(ex)) -digitsVal(xd, 10) else digitsVal(xd, 10)
        pure val k = x - length(fp)
        if (x > MAXEXP) ft("over")
        else if (x < MINEXP) ft("under")
        else if (iabs(k) > 20000) ft("open")
        else { kind: "dec", neg: isNeg(t), p: m * (if (k > 0) 10^k else 1), q: if (k < 0) 10^(-k) else 1 }
      }
    }
  }

  // ------------------------------------------------------------ transitions
  pure def ok(s: State): Res = { st: "ok", r: [], rt: [], s: s, chk: true }
  pure def okr(s: State, r: List[int]): Res = { st: "ok", r: r, rt: [], s: s, chk: true }
  pure def rel(s: State, e: Ev, c: bool): Res = { st: "ok", r: e.r, rt: e.rt, s: s, chk: c }
  pure def stuck(s: State, st: str): Res = { st: st, r: [], rt: [], s: s, chk: true }
  pure def setH(s: State, d: int, x: Val): State = s.replaceAt(d, x)

  pure def parse(s: State, e: Ev): Res = {
    pure val x = parseText(e.t)
    if (x.kind == "err" or x.kind == "over" or x.kind == "under") stuck(s, "err")
    else if (x.kind == "open") { ...rel(if (e.st == "ok") setH(s, e.d, shown(e, e.d)) else s, e, true), st: e.st }
    else if (x.p == 0) ok(setH(s, e.d, { ...ofInt(0), neg: x.neg and shownNeg(e, e.d) }))
    else ok(setH(s, e.d, ofFrac(if (x.neg) -x.p else x.p, x.q)))
  }
  pure def setPrec(x: Val, p: int): Val =
    if (isNan(x)) x
    else if (p == 0) { ...x, prec: 0, form: if (isFin(x)) "zero" else x.form, m: 0, k: 0, acc: if (not(isFin(x))) 0 else if (x.neg) 1 else -1 }
    else if (isFin(x)) rounded({ ...x, prec: imin(p, MAXPREC) }, x.neg, x.m, 1, x.k)
    else { ...x, prec: imin(p, MAXPREC), acc: 0 }
  // x * 2^k, exactly, in the format of x
  pure def scaledBy(x: Val, k: int): Val = if (isFin(x)) rounded(x, x.neg, x.m, 1, x.k + k) else { ...x, acc: 9 }

  pure def floatNext(s: State, e: Ev): Res =
    if (e.op == "reset") ok(initState)
    else if (e.op == "o2") ok(setH(s, e.d, fn2(e.f, s[e.a], s[e.b], shownNeg(e, e.d))))
    else if (e.op == "a2") ok(setH(s, e.d, fn2(e.f, s[e.d], s[e.b], shownNeg(e, e.d))))
    else if (e.op == "o1") {
      pure val x = s[e.a]
      ok(setH(s, e.d, { ...x, neg: if (e.f == "abs") false else not(x.neg), acc: 9 }))
    }
    else if (e.op == "deep") ok(setH(s, e.d, s[e.a]))
    else if (e.op == "default") ok(setH(s, e.d, DEFAULT))
    else if (e.op == "inf") ok(setH(s, e.d, infOf(DEFAULT, e.k == 1)))
    else if (e.op == "nan") ok(setH(s, e.d, NaN))
    else if (e.op == "mk") {
      pure val v = limbsInt(e.s) * (if (e.k == 1) -1 else 1)
      ok(setH(s, e.d, { ...scaledBy({ ...setPrec(ofInt(v), e.n), mode: e.m, acc: 0 }, e.c), acc: if (v == 0) 9 else 0 }))
    }
    else if (e.op == "big") ok(setH(s, e.d, ofInt(limbsInt(e.s) * (if (e.k == 1) -1 else 1))))
    else if (e.op == "rat") ok(setH(s, e.d, ofFrac(limbsInt(slice(e.s, 0, e.n)) * (if (e.k == 1) -1 else 1), limbsInt(dropN(e.s, e.n)))))
    else if (e.op == "cons") ok(setH(s, e.d, ofInt(e.k)))
    else if (e.op == "fromf") {
      pure val d = decode(if (e.f == "f32") F32 else F64, e.k)
      pure val x = { ...DEFAULT, prec: 53 }
      ok(setH(s, e.d,
        if (d.nan) NaN
        else if (d.inf) infOf(x, d.neg)
        else if (d.num == 0) zeroOf(x, d.neg)
        else rounded(x, d.neg, d.num, d.den, 0)))
    }
    else if (e.op == "setprec") ok(setH(s, e.d, setPrec(s[e.d], e.n)))
    else if (e.op == "setmode") ok(setH(s, e.d, { ...s[e.d], mode: e.m, acc: 0 }))
    else if (e.op == "setme") ok(setH(s, e.d, scaledBy(s[e.a], e.k)))
    else if (e.op == "mantexp") {
      pure val x = s[e.a]
      { ...okr(setH(s, e.d, if (isFin(x)) { ...x, k: -blen(x.m), acc: 9 } else { ...x, acc: 9 }),
               if (isNan(x)) e.r else [if (isFin(x)) expOf(x) else 0]) , chk: length(e.r) == 1 }
    }
    else if (e.op == "tof") {
      pure val f = if (e.f == "f32") F32 else F64
      if (isNan(s[e.a])) rel(s, { ...e, rt: [] }, length(e.r) == 2 and decode(f, e.r[0]).nan)
      else okr(s, toFloat(f, s[e.a]))
    }
    else if (e.op == "trunc") {
      if (isNan(s[e.a])) okr(s, [])
      else okr(s, if (e.f == "u64") truncTo(s[e.a], 0, 18446744073709551615) else truncTo(s[e.a], -9223372036854775808, 9223372036854775807))
    }
    else if (e.op == "class") {
      pure val x = s[e.a]
      if (isNan(x)) rel(s, { ...e, rt: [] }, length(e.r) == 6 and slice(e.r, 0, 5) == [1, 9, -1, -1, -1])
      else okr(s, [0, if (isZero(x)) 0 else if (x.neg) -1 else 1, b2i(x.neg), b2i(isInf(x)), b2i(isInt(x)), minPrec(x)])
    }
    else if (e.op == "cmp") okr(s, cmpRet(s[e.a], s[e.b]))
    else if (e.op == "fmt") rel(s, { ...e, r: [] }, fmtOk(e.f, e.n, s[e.a], e.rt))
    else if (e.op == "parse") parse(s, e)
    // why a text is refused, -1: it is not; 0: exponent too large, 1: too small, 2: malformed
    else if (e.op == "perr") {
      pure val x = parseText(e.t)
      if (x.kind == "open") rel(s, { ...e, rt: [] }, length(e.r) == 1)
      else okr(s, [if (x.kind == "over") 0 else if (x.kind == "under") 1 else if (x.kind == "err") 2 else -1])
    }
    else stuck(s, "unknown")

  // ------------------------------------------------------------ trace acceptance
  var ev: Ev
  var sys: State

  action init = all { ev' = noEv, sys' = initState }
  pure def admits(e: Ev, x: Res): bool =
    and { x.st == e.st, x.r == e.r, x.rt == e.rt, x.chk, projects(x.s, e.obs) }
  action accept = {
    val x = floatNext(sys, ev)
    all { admits(ev, x), sys' = x.s, ev' = ev }
  }
  val wanted: Res = floatNext(sys, ev)

  // ------------------------------------------------------------ free-running machine (MBT)
  // invariants of the specification itself
  pure def sane(x: Val): bool =
    if (isFin(x)) and { x.m > 0, x.m % 2 == 1, blen(x.m) <= x.prec, expOf(x) <= MAXEXP, expOf(x) >= MINEXP }
    else x.m == 0
  val sound: bool = sys.foldl(true, (b, x) => b and sane(x))
  action fire(e: Ev): bool = {
    val x = floatNext(sys, e)
    val l = sys[if (e.op == "a2") e.d else e.a]
    // the sign of 0 - 0 under mode 4 is left open: not a history to replay
    val open0 = (e.op == "o2" or e.op == "a2") and l.mode == 4 and isZero(l) and isZero(sys[e.b])
    all { not(open0), x.st == "ok", x.s.foldl(true, (b, c) => b and (not(isFin(c)) or iabs(expOf(c)) < 4000)), sys' = x.s, ev' = e }
  }
  action step = {
    nondet d = 0.to(3).oneOf()
    nondet a = 0.to(3).oneOf()
    nondet b = 0.to(3).oneOf()
    nondet f = Set("add", "sub", "mul", "div").oneOf()
    nondet p = Set(1, 2, 3, 24, 31, 32, 33, 53, 64, 65, 100).oneOf()
    nondet m = 0.to(5).oneOf()
    nondet v = Set(1, 3, 5, 4294967295, 4294967297, 18446744073709551615).oneOf()
    nondet c = (-70).to(70).oneOf()
    nondet g = 0.to(1).oneOf()
    any {
      fire({ ...noEv, op: "mk", d: d, k: g, n: p, m: m, c: c, s: [v % 4294967296, v / 4294967296] }),
      fire({ ...noEv, op: "mk", d: d, k: g, n: p, m: m, c: c, s: [v % 4294967296, v / 4294967296] }),
      fire({ ...noEv, op: "setprec", d: d, n: p }),
      fire({ ...noEv, op: "setmode", d: d, m: m }),
      fire({ ...noEv, op: "deep", d: d, a: a }),
      fire({ ...noEv, op: "o1", f: "neg", d: d, a: a }),
      fire({ ...noEv, op: "setme", d: d, a: a, k: c }),
      fire({ ...noEv, op: "o2", f: f, d: d, a: a, b: b }),
      fire({ ...noEv, op: "o2", f: f, d: d, a: a, b: b }),
      fire({ ...noEv, op: "a2", f: f, d: d, b: b }),
      fire({ ...noEv, op: "a2", f: f, d: d, b: b }),
    }
  }
}
