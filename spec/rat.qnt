// The Rat machine: four handles holding private values (nothing a call does to one handle shows
// through another), each a fraction in lowest terms with positive denominator, or NaN.
module rat {
  import core.* from "./core"
  import natText.* from "./nattext"
  import ieee.* from "./ieee"

  type Val = { nan: bool, p: int, q: int }
  type State = List[Val]
  type Res = { st: str, r: List[int], rt: List[int], s: State, chk: bool }

  pure val HANDLES = 4
  pure val NaN: Val = { nan: true, p: 0, q: 1 }
  // the fraction p/q in lowest terms (q != 0)
  pure def frac(p: int, q: int): Val = {
    pure val g = igcd(p, q)
    pure val k = if (q < 0) -g else g
    { nan: false, p: tdiv(p, k), q: tdiv(q, k) }
  }
  pure val ZERO: Val = { nan: false, p: 0, q: 1 }
  pure val initState: State = [ZERO, ZERO, ZERO, ZERO]

  // observed: [is_nan, limbs, magnitude, signnum of the numerator, limbs, magnitude, signnum of the denominator]
  pure def seen(x: Val, o: List[int]): bool =
    if (x.nan) length(o) == 7 and o[0] == 1
    else and { length(o) == 7, o[0] == 0, o[2] == iabs(x.p), o[3] == isgn(x.p), o[5] == x.q, o[6] == 1,
               isLimbs(o[1], o[2]), isLimbs(o[4], o[5]) }
  pure def projects(s: State, obs: List[List[int]]): bool = and {
    length(obs) == HANDLES,
    range(0, HANDLES).foldl(true, (b, h) => b and seen(s[h], obs[h]))
  }
  pure def shown(e: Ev, h: int): Val = {
    pure val o = e.obs[h]
    if (o[0] == 1 or o[1] == 0 or o[4] == 0 or o[5] == 0) NaN
    else { nan: false, p: if (o[3] < 0) -o[2] else o[2], q: o[5] }
  }

  pure def fn2(f: str, x: Val, y: Val): Val =
    if (x.nan or y.nan) NaN
    else if (f == "add") frac(x.p * y.q + y.p * x.q, x.q * y.q)
    else if (f == "sub") frac(x.p * y.q - y.p * x.q, x.q * y.q)
    else if (f == "mul") frac(x.p * y.p, x.q * y.q)
    else frac(x.p * y.q, x.q * y.p)
  pure def panics2(f: str, x: Val, y: Val): bool = f == "div" and not(x.nan) and not(y.nan) and y.p == 0
  pure def cmpRet(x: Val, y: Val): List[int] =
    if (x.nan or y.nan) [9, 0, 1, 0, 0, 0, 0]
    else {
      pure val d = isgn(x.p * y.q - y.p * x.q)
      [d, b2i(d == 0), b2i(d != 0), b2i(d < 0), b2i(d <= 0), b2i(d > 0), b2i(d >= 0)]
    }
  pure def limbsInt(l: List[int]): int = l.foldl({ v: 0, p: 1 }, (a, b) => { v: a.v + a.p * b, p: a.p * 4294967296 }).v

  // ------------------------------------------------------------ text
  pure def indexOf(t: List[int], c: int): int =
    t.foldl({ i: 0, at: -1 }, (s, x) => { i: s.i + 1, at: if (s.at == -1 and x == c) s.i else s.at }).at
  pure def fmtInt(f: str, x: int, t: List[int]): bool =
    if (x < 0) length(t) > 0 and t[0] == 45 and natFmtOk(f, -x, dropN(t, 1)) else natFmtOk(f, x, t)
  pure def fmtOk(f: str, x: Val, t: List[int]): bool =
    if (x.nan) t == TNAN
    else {
      pure val i = indexOf(t, 47)
      i > 0 and fmtInt(f, x.p, slice(t, 0, i)) and fmtInt(f, x.q, dropN(t, i + 1))
    }
  type IntText = { ok: bool, v: int }
  pure def parseInt(t0: List[int]): IntText = {
    pure val t = trimBlank(t0)
    pure val m = length(t) > 0 and t[0] == 45
    pure val p = parseNat(if (m) dropN(t, 1) else t)
    if (not(p.ok) or p.nan) { ok: false, v: 0 } else { ok: true, v: if (m) -p.v else p.v }
  }
  // decimal numerals with a point: [+-] digits . digits [e [+-] digits], some digit before the exponent
  type Dec = { ok: bool, v: Val, far: bool, neg: bool }
  pure val NODEC: Dec = { ok: false, v: NaN, far: false, neg: false }
  pure def isSign(c: int): bool = c == 43 or c == 45
  pure def dropSign(t: List[int]): List[int] = if (length(t) > 0 and isSign(t[0])) dropN(t, 1) else t
  pure def isNeg(t: List[int]): bool = length(t) > 0 and t[0] == 45
  pure def parseDec(t: List[int]): Dec = {
    pure val u = dropSign(t)
    pure val e1 = indexOf(u, 101)
    pure val e2 = indexOf(u, 69)
    pure val e = if (e1 == -1) e2 else if (e2 == -1) e1 else imin(e1, e2)
    pure val man = if (e == -1) u else slice(u, 0, e)
    pure val ex = if (e == -1) [48] else dropN(u, e + 1)
    pure val dot = indexOf(man, 46)
    if (dot == -1) NODEC
    else {
      pure val ip = slice(man, 0, dot)
      pure val fp = dropN(man, dot + 1)
      pure val xd = dropSign(ex)
      if (length(ip) + length(fp) == 0 or not(allDigits(ip, 10)) or not(allDigits(fp, 10)) or length(xd) == 0
          or not(allDigits(xd, 10))) NODEC
      else {
        pure val m = digitsVal(ip.concat(fp), 10)
        pure val k = (if (isNeg(ex)) -digitsVal(xd, 10) else digitsVal(xd, 10)) - length(fp)
        if (m == 0) { ok: true, v: ZERO, far: false, neg: isNeg(t) }
        else if (k > 3000) { ok: true, v: NaN, far: true, neg: isNeg(t) }
        else if (k < -3000 - length(man)) { ok: true, v: ZERO, far: true, neg: isNeg(t) }
        else { ok: true, v: if (k >= 0) { nan: false, p: m * 10^k, q: 1 } else { nan: false, p: m, q: 10^(-k) }, far: false, neg: isNeg(t) }
      }
    }
  }
  // the value of the double nearest to it; too large for a double: NaN
  pure def viaDouble(x: Val): Val =
    if (x.nan) NaN
    else {
      pure val d = decode(F64, nearestBits(F64, x.p, x.q))
      if (d.inf) NaN else frac(d.num, d.den)
    }
  pure def signed(x: Val, neg: bool): Val = if (neg) { ...x, p: -x.p } else x

  // ------------------------------------------------------------ transitions
  pure def ok(s: State): Res = { st: "ok", r: [], rt: [], s: s, chk: true }
  pure def okr(s: State, r: List[int]): Res = { st: "ok", r: r, rt: [], s: s, chk: true }
  pure def rel(s: State, e: Ev, c: bool): Res = { st: "ok", r: e.r, rt: e.rt, s: s, chk: c }
  pure def stuck(s: State, st: str): Res = { st: st, r: [], rt: [], s: s, chk: true }
  pure def setH(s: State, d: int, x: Val): State = s.replaceAt(d, x)

  pure def parse(s: State, e: Ev): Res = {
    pure val t = trimBlank(e.t)
    if (indexOf(t, 46) != -1) {
      pure val x = parseDec(t)
      pure val exact = if (x.v.nan) NaN else signed(frac(x.v.p, x.v.q), x.neg)
      pure val dbl = if (x.far) exact else signed(viaDouble(x.v), x.neg)
      // a decimal is read either exactly or through the nearest double
      if (not(x.ok)) stuck(s, "err")
      else if (e.st == "ok" and shown(e, e.d) == exact) ok(setH(s, e.d, exact))
      else ok(setH(s, e.d, dbl))
    }
    else {
      pure val i = indexOf(t, 47)
      pure val a = if (i == -1) parseInt(t) else parseInt(slice(t, 0, i))
      pure val b = if (i == -1) { ok: true, v: 1 } else parseInt(dropN(t, i + 1))
      if (not(a.ok) or not(b.ok)) stuck(s, "err")
      else if (b.v == 0) stuck(s, "err")
      else ok(setH(s, e.d, frac(a.v, b.v)))
    }
  }

  // why an operation is refused, -1: it is not; 0: the denominator is zero, 1: the numerator is, 2: the text is malformed
  pure def parseKind(t0: List[int]): int = {
    pure val t = trimBlank(t0)
    if (indexOf(t, 46) != -1) (if (parseDec(t).ok) -1 else 2)
    else {
      pure val i = indexOf(t, 47)
      pure val a = if (i == -1) parseInt(t) else parseInt(slice(t, 0, i))
      pure val b = if (i == -1) { ok: true, v: 1 } else parseInt(dropN(t, i + 1))
      if (not(a.ok) or not(b.ok)) 2 else if (b.v == 0) 0 else -1
    }
  }

  // nearest f32/f64 and whether it is exact
  pure def toFloat(s: State, e: Ev, f: Fmt): Res = {
    pure val x = s[e.a]
    if (x.nan) rel(s, { ...e, rt: [] }, length(e.r) == 2 and decode(f, e.r[0]).nan and e.r[1] == 0)
    else {
      pure val b = nearestBits(f, iabs(x.p), x.q)
      pure val d = decode(f, b)
      okr(s, [if (x.p < 0) b + signBit(f) else b, b2i(not(d.inf) and d.num * x.q == iabs(x.p) * d.den)])
    }
  }

  pure def ratNext(s: State, e: Ev): Res =
    if (e.op == "reset") ok(initState)
    else if (e.op == "o2" or e.op == "a2") {
      pure val x = s[if (e.op == "a2") e.d else e.a]
      pure val y = s[e.b]
      if (panics2(e.f, x, y)) stuck(s, "panic") else ok(setH(s, e.d, fn2(e.f, x, y)))
    }
    else if (e.op == "o1") {
      pure val x = s[e.a]
      if (x.nan) ok(setH(s, e.d, NaN))
      else if (e.f == "neg") ok(setH(s, e.d, { ...x, p: -x.p }))
      else if (e.f == "abs") ok(setH(s, e.d, { ...x, p: iabs(x.p) }))
      else if (x.p == 0) stuck(s, "err")
      else ok(setH(s, e.d, frac(x.q, x.p)))
    }
    else if (e.op == "clone" or e.op == "deep") ok(setH(s, e.d, s[e.a]))
    // numerator: the first n limbs, denominator: the rest; k, m: signs
    else if (e.op == "set") {
      pure val p = limbsInt(slice(e.s, 0, e.n)) * (if (e.k == 1) -1 else 1)
      pure val q = limbsInt(dropN(e.s, e.n)) * (if (e.m == 1) -1 else 1)
      // the arguments are not changed
      if (q == 0) { ...stuck(s, "err"), r: [p, q] } else okr(setH(s, e.d, frac(p, q)), [p, q])
    }
    else if (e.op == "frac") (if (e.n == 0) stuck(s, "err") else ok(setH(s, e.d, frac(e.k, e.n))))
    else if (e.op == "cons") ok(setH(s, e.d, frac(e.k, 1)))
    else if (e.op == "consbig") ok(setH(s, e.d, frac(limbsInt(e.s) * (if (e.k == 1) -1 else 1), 1)))
    else if (e.op == "setnan") ok(setH(s, e.d, NaN))
    else if (e.op == "fromf") {
      pure val d = decode(if (e.f == "f32") F32 else F64, e.k)
      ok(setH(s, e.d, if (d.nan or d.inf) NaN else signed(frac(d.num, d.den), d.neg)))
    }
    else if (e.op == "tof") toFloat(s, e, if (e.f == "f32") F32 else F64)
    else if (e.op == "parse") parse(s, e)
    else if (e.op == "perr") okr(s, [parseKind(e.t)])
    else if (e.op == "fracerr") okr(s, [if (limbsInt(dropN(e.s, e.n)) == 0) 0 else -1])
    else if (e.op == "fracierr") okr(s, [if (e.n == 0) 0 else -1])
    else if (e.op == "inverr") okr(s, [if (not(s[e.a].nan) and s[e.a].p == 0) 1 else -1])
    else if (e.op == "fmt") rel(s, { ...e, r: [] }, fmtOk(e.f, s[e.a], e.rt))
    else if (e.op == "cmp") okr(s, cmpRet(s[e.a], s[e.b]))
    else if (e.op == "class") {
      pure val x = s[e.a]
      // is_nan, signnum, is_integer
      if (x.nan) rel(s, { ...e, rt: [] }, length(e.r) == 3 and e.r[0] == 1 and e.r[2] == -1)
      else okr(s, [0, isgn(x.p), b2i(x.q == 1)])
    }
    else stuck(s, "unknown")

  // ------------------------------------------------------------ trace acceptance
  var ev: Ev
  var sys: State

  action init = all { ev' = noEv, sys' = initState }
  pure def admits(e: Ev, x: Res): bool =
    and { x.st == e.st, x.r == e.r, x.rt == e.rt, x.chk, projects(x.s, e.obs) }
  action accept = {
    val x = ratNext(sys, ev)
    all { admits(ev, x), sys' = x.s, ev' = ev }
  }
  val wanted: Res = ratNext(sys, ev)

  // ------------------------------------------------------------ free-running machine (MBT)
  action fire(e: Ev): bool = {
    val x = ratNext(sys, e)
    all { x.st == "ok", x.s.foldl(true, (b, c) => b and iabs(c.p) < 2^2000 and c.q < 2^2000), sys' = x.s, ev' = e }
  }
  action step = {
    nondet d = 0.to(3).oneOf()
    nondet a = 0.to(3).oneOf()
    nondet b = 0.to(3).oneOf()
    nondet f = Set("add", "sub", "mul", "div").oneOf()
    nondet g = Set("neg", "abs", "inv").oneOf()
    nondet p = Set(0, 1, -1, 2, -6, 15, 4294967296, -9223372036854775808, 9223372036854775807).oneOf()
    nondet q = Set(1, -1, 2, 3, -10, 4294967295, -9223372036854775808).oneOf()
    nondet h = Set(0, 9223372036854775808, 1, 4607182418800017408, 13830554455654793216, 9218868437227405311, 4503599627370496).oneOf()
    any {
      fire({ ...noEv, op: "clone", d: d, a: a }),
      fire({ ...noEv, op: "deep", d: d, a: a }),
      fire({ ...noEv, op: "frac", d: d, k: p, n: q }),
      fire({ ...noEv, op: "frac", d: d, k: p, n: q }),
      fire({ ...noEv, op: "fromf", f: "f64", d: d, k: h }),
      fire({ ...noEv, op: "o2", f: f, d: d, a: a, b: b }),
      fire({ ...noEv, op: "o2", f: f, d: d, a: a, b: b }),
      fire({ ...noEv, op: "a2", f: f, d: d, b: b }),
      fire({ ...noEv, op: "a2", f: f, d: d, b: b }),
      fire({ ...noEv, op: "o1", f: g, d: d, a: a }),
    }
  }
}
