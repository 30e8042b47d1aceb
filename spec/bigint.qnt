// The BigInt machine.  A handle is a sign of its own and a cell with the magnitude; `Clone`
// copies the sign and shares the cell, so an op-assign through one handle changes the
// magnitude every sharing handle shows, but not their sign.  When that leaves a sharing handle with a
// minus sign in front of 0 the handle is `stale`: nothing is promised about it until it is
// overwritten.
module bigint {
  import core.* from "./core"
  import cells.* from "./cells"
  import natText.* from "./nattext"

  type Mag = { nan: bool, v: int }
  type State = { st: Store[Mag], neg: List[bool] }
  type Res = { st: str, r: List[int], rt: List[int], s: State, chk: bool }

  pure val HANDLES = 4
  pure val MNAN: Mag = { nan: true, v: 0 }
  pure def mag(x: int): Mag = { nan: false, v: x }
  pure val initState: State =
    { st: { env: [0, 1, 2, 3], heap: [mag(0), mag(0), mag(0), mag(0), MNAN] }, neg: [false, false, false, false] }

  // a signed value or NaN
  type Val = { nan: bool, v: int }
  pure val NaN: Val = { nan: true, v: 0 }
  pure def num(x: int): Val = { nan: false, v: x }
  pure def rd(s: State, h: int): Val = {
    pure val m = look(s.st, h)
    if (m.nan) NaN else num(if (s.neg[h]) -m.v else m.v)
  }
  pure def stale(s: State, h: int): bool = { pure val m = look(s.st, h)  not(m.nan) and m.v == 0 and s.neg[h] }
  pure def magOf(x: Val): Mag = if (x.nan) MNAN else mag(iabs(x.v))
  pure def fresh(s: State, d: int, x: Val): State =
    { st: putFresh(s.st, d, magOf(x)), neg: s.neg.replaceAt(d, x.v < 0) }
  pure def update(s: State, d: int, x: Val): State =
    { st: putShared(s.st, d, magOf(x)), neg: s.neg.replaceAt(d, x.v < 0) }
  pure def shareTo(s: State, d: int, a: int): State =
    { st: share(s.st, d, a), neg: s.neg.replaceAt(d, s.neg[a]) }

  // a handle is observed as [number of limbs, magnitude, signnum (9 for NaN)]
  pure def seen(x: Val, o: List[int]): bool = and {
    length(o) == 3,
    if (x.nan) o == [0, 0, 9]
    else o[1] == iabs(x.v) and o[2] == isgn(x.v) and isLimbs(o[0], o[1])
  }
  pure def projects(s: State, obs: List[List[int]]): bool = and {
    length(obs) == HANDLES,
    range(0, HANDLES).foldl(true, (b, h) => b and (stale(s, h) or seen(rd(s, h), obs[h])))
  }
  pure def shown(e: Ev, h: int): Val =
    if (e.obs[h][0] == 0) NaN else num(if (e.obs[h][2] < 0) -e.obs[h][1] else e.obs[h][1])

  // ------------------------------------------------------------ values
  pure def fn2(f: str, x: Val, y: Val): Val =
    if (x.nan or y.nan) NaN
    else if (f == "add") num(x.v + y.v)
    else if (f == "sub") num(x.v - y.v)
    else if (f == "mul") num(x.v * y.v)
    else if (f == "div") num(tdiv(x.v, y.v))
    else if (f == "rem") num(trem(x.v, y.v))
    else if (f == "reme") num(erem(x.v, y.v))
    else if (f == "dive") num(tdiv(x.v - erem(x.v, y.v), y.v))
    else if (f == "and") num(intAnd(x.v, y.v))
    else if (f == "or") num(intOr(x.v, y.v))
    else if (f == "xor") num(intXor(x.v, y.v))
    else if (f == "andnot") num(intAndNot(x.v, y.v))
    else if (f == "shl") num(x.v * 2^y.v)
    else if (f == "shr") num(if (y.v >= blen(x.v)) (if (x.v < 0) -1 else 0) else fdiv(x.v, 2^y.v))
    else NaN
  pure def divides(f: str): bool = f == "div" or f == "rem" or f == "reme" or f == "dive"
  pure def panics2(f: str, x: Val, y: Val): bool = divides(f) and not(y.nan) and y.v == 0

  // self^b mod |n|; n = 0: self^b for b > 0, 1 otherwise; b < 0 needs an inverse.  Without one the
  // documentation says NaN and the repository's own test expects 1 for 2^-100 mod 1234: left open
  pure def expOpen(x: int, b: int, n: int): bool = b < 0 and iabs(n) > 1 and invMod(x, iabs(n)) == 0
  pure def expSem(x: int, b: int, n: int): Val =
    if (n == 0) num(if (b <= 0) 1 else x^b)
    else if (b >= 0) num(powMod(x, b, iabs(n)))
    else if (iabs(n) == 1) num(0)
    else {
      pure val i = invMod(x, iabs(n))
      if (i == 0) NaN else num(powMod(i, -b, iabs(n)))
    }
  pure def cmpRet(x: Val, y: Val): List[int] =
    if (x.nan or y.nan) [9, 0, 1, 0, 0, 0, 0]
    else [isgn(x.v - y.v), b2i(x.v == y.v), b2i(x.v != y.v), b2i(x.v < y.v), b2i(x.v <= y.v),
          b2i(x.v > y.v), b2i(x.v >= y.v)]
  pure def prodRange(a: int, b: int): int =
    if (a > b) 1 else if (a <= 0 and b >= 0) 0
    else range(0, b - a + 1).foldl(1, (p, i) => p * (a + i))

  // ------------------------------------------------------------ text
  pure def fmtOk(f: str, x: Val, t: List[int]): bool =
    if (x.nan) t == TNAN
    else if (x.v < 0) length(t) > 0 and t[0] == 45 and natFmtOk(f, -x.v, dropN(t, 1))
    else natFmtOk(f, x.v, t)
  // '-' directly followed by a Nat numeral; a blank or '+' after the minus is left open
  pure def afterMinus(t: List[int]): List[int] = {
    pure val u = trimBlank(t)
    if (length(u) > 0 and u[0] == 45) dropN(u, 1) else u
  }
  pure def isMinus(t: List[int]): bool = { pure val u = trimBlank(t)  length(u) > 0 and u[0] == 45 }
  pure def openForm(t: List[int]): bool = {
    pure val u = afterMinus(t)
    isMinus(t) and length(u) > 0 and (isBlank(u[0]) or u[0] == 43)
  }

  // ------------------------------------------------------------ transition relation
  pure def ok(s: State): Res = { st: "ok", r: [], rt: [], s: s, chk: true }
  pure def okr(s: State, r: List[int]): Res = { st: "ok", r: r, rt: [], s: s, chk: true }
  pure def rel(s: State, e: Ev, c: bool): Res = { st: "ok", r: e.r, rt: e.rt, s: s, chk: c }
  pure def relV(s: State, c: bool): Res = { st: "ok", r: [], rt: [], s: s, chk: c }
  pure def stuck(s: State, st: str): Res = { st: st, r: [], rt: [], s: s, chk: true }

  // the handles an event reads
  pure def reads(e: Ev): List[int] =
    if (e.op == "o2" or e.op == "gcd" or e.op == "jacobi" or e.op == "modsqrt" or e.op == "cmp") [e.a, e.b]
    else if (e.op == "a2") [e.d, e.b]
    else if (e.op == "au" or e.op == "setneg" or e.op == "setnat") [e.d]
    else if (e.op == "o3" or e.op == "lineq") [e.a, e.b, e.c]
    else if (e.op == "ou" or e.op == "o1" or e.op == "q1" or e.op == "qbit" or e.op == "cmpu" or e.op == "fmt"
             or e.op == "random" or e.op == "randtop" or e.op == "clone" or e.op == "deep") [e.a]
    else []
  pure def readsStale(s: State, e: Ev): bool = reads(e).foldl(false, (b, h) => b or stale(s, h))
  // nothing is promised about what a call makes of a stale operand: take over what is shown
  pure def takeOver(s: State, e: Ev): State = {
    pure val placed =
      if (e.st != "ok") s
      else if (e.op == "clone") shareTo(s, e.d, e.a)
      else if (e.op == "o2" or e.op == "o1" or e.op == "ou" or e.op == "o3" or e.op == "deep" or e.op == "random"
               or e.op == "modsqrt" or e.op == "binomial") fresh(s, e.d, NaN)
      else if (e.op == "gcd") fresh(fresh(fresh(s, e.d, NaN), (e.d + 1) % HANDLES, NaN), (e.d + 2) % HANDLES, NaN)
      else s
    range(0, HANDLES).foldl(placed, (z, h) => {
      st: { env: z.st.env, heap: z.st.heap.replaceAt(z.st.env[h], magOf(shown(e, h))) },
      neg: z.neg.replaceAt(h, e.obs[h][2] < 0)
    })
  }

  pure def openRes(s: State, e: Ev): Res = { st: e.st, r: e.r, rt: e.rt, s: takeOver(s, e), chk: true }

  pure def limbsVal(l: List[int]): Val =
    if (length(l) == 0) NaN
    else num(l.foldl({ v: 0, p: 1 }, (a, b) => { v: a.v + a.p * b, p: a.p * 4294967296 }).v)
  pure def signed(x: Val, k: int): Val = if (k == 1) { ...x, v: -x.v } else x

  pure def core2(s: State, e: Ev): Res = {
    pure val x = rd(s, e.a)
    pure val y = rd(s, e.b)
    if (e.f == "modinv") {
      if (x.nan or y.nan) ok(fresh(s, e.d, NaN))
      else if (y.v == 0) openRes(s, e)
      else if (iabs(y.v) == 1) {
        // every integer is an inverse modulo 1
        pure val g = shown(e, e.d)
        relV(fresh(s, e.d, g), not(g.nan) and ch(g.v, 0, 1))
      }
      else {
        pure val i = invMod(x.v, iabs(y.v))
        // not coprime: there is no inverse and nothing is promised about the number returned
        if (i == 0) relV(fresh(s, e.d, shown(e, e.d)), true) else ok(fresh(s, e.d, num(i)))
      }
    }
    // a zero divisor panics; with a NaN dividend, NaN is as good
    else if (panics2(e.f, x, y) and not(x.nan and e.st == "ok")) stuck(s, "panic")
    else ok(fresh(s, e.d, if (panics2(e.f, x, y)) NaN else fn2(e.f, x, y)))
  }

  pure def queries(s: State, e: Ev): Res = {
    pure val x = rd(s, e.a)
    if (e.op == "qbit")
      okr(s, [if (x.nan or e.k >= imax(1, blen(x.v))) -1 else b2i(bitAt(x.v, e.k))])
    else if (e.op == "cmp") okr(s, cmpRet(x, rd(s, e.b)))
    else if (e.op == "cmpu") okr(s, [b2i(not(x.nan) and x.v == e.k), b2i(x.nan or x.v != e.k)])
    else if (e.op == "fmt") rel(s, { ...e, r: [] }, fmtOk(e.f, x, e.rt))
    else if (e.f == "bits") okr(s, [if (x.nan) 0 else imax(1, blen(x.v))])
    else if (e.f == "class")
      okr(s, if (x.nan) [1, 0, 0, 0, 9] else [0, b2i(x.v < 0), b2i(x.v > 0), b2i(x.v >= 0), isgn(x.v)])
    else {
      pure val le = e.f == "le" or e.f == "cle"
      pure val len = if (x.nan) 0 else imax(1, (blen(x.v) + 7) / 8)
      rel(s, { ...e, rt: [] }, length(e.r) == len and allBytes(e.r) and (if (le) leVal(e.r) else beVal(e.r)) == iabs(x.v))
    }
  }

  pure def numberTheory(s: State, e: Ev): Res = {
    pure val x = rd(s, e.a)
    pure val y = rd(s, e.b)
    if (e.op == "gcd") {
      pure val g = shown(e, e.d)
      pure val u = shown(e, (e.d + 1) % HANDLES)
      pure val w = shown(e, (e.d + 2) % HANDLES)
      pure val z = fresh(fresh(fresh(s, e.d, g), (e.d + 1) % HANDLES, u), (e.d + 2) % HANDLES, w)
      if (x.nan or y.nan) relV(z, g.nan and u.nan and w.nan)
      else relV(z, and { not(g.nan), not(u.nan), not(w.nan), g.v == igcd(x.v, y.v), x.v * u.v + y.v * w.v == g.v })
    }
    else if (e.op == "lineq") {
      // all solutions of a x = b (mod n) in [0, |n|), each once; none iff gcd(a, n) does not divide b
      pure val z = rd(s, e.c)
      if (x.nan or y.nan or z.nan) stuck(s, "none")
      else if (z.v == 0) openRes(s, e)
      else {
        pure val m = iabs(z.v)
        pure val g = igcd(x.v, m)
        if (fmod(y.v, g) != 0) stuck(s, "none")
        else rel(s, { ...e, rt: [] }, and {
          length(e.r) == g,
          e.r.foldl(true, (b, t) => b and 0 <= t and t < m and fmod(x.v * t - y.v, m) == 0),
          size(e.r.foldl(Set(), (q, t) => q.union(Set(t)))) == g
        })
      }
    }
    else if (e.op == "jacobi") {
      if (x.nan or y.nan or y.v == 0) okr(s, [9])
      else if (y.v % 2 == 0) openRes(s, e)
      else okr(s, [jacobi(x.v, iabs(y.v)) * (if (x.v < 0 and y.v < 0) -1 else 1)])
    }
    else if (e.op == "modsqrt") {
      // y is an odd prime (decided here, big ones by certificate)
      if (not(y.v % 2 == 1 and y.v > 2 and certified(y.v, e.g) == 1)) openRes(s, e)
      else if (x.nan) stuck(s, "none")
      else if (jacobi(x.v, y.v) == -1) stuck(s, "none")
      else {
        pure val g = shown(e, e.d)
        relV(fresh(s, e.d, g), not(g.nan) and 0 <= g.v and g.v < y.v and fmod(g.v * g.v - x.v, y.v) == 0)
      }
    }
    else if (e.op == "mulrange") ok(fresh(s, e.d, num(prodRange(e.k, e.n))))
    else if (e.op == "binomial") {
      // C(k, n) for k, n >= 0
      if (e.k < 0 or e.n < 0) openRes(s, e)
      else if (e.n > e.k) ok(fresh(s, e.d, num(0)))
      else {
        pure val j = imin(e.n, e.k - e.n)
        ok(fresh(s, e.d, num(prodRange(e.k - j + 1, e.k) / prodRange(1, j))))
      }
    }
    else stuck(s, "unknown")
  }

  pure def intNext(s: State, e: Ev): Res =
    if (e.op == "reset") ok(initState)
    else if (readsStale(s, e)) openRes(s, e)
    else if (e.op == "o2") core2(s, e)
    else if (e.op == "a2") {
      pure val x = rd(s, e.d)
      pure val y = rd(s, e.b)
      if (panics2(e.f, x, y) and not(x.nan and e.st == "ok")) stuck(s, "panic")
      else ok(update(s, e.d, if (panics2(e.f, x, y)) NaN else fn2(e.f, x, y)))
    }
    else if (e.op == "ou") ok(fresh(s, e.d, fn2(e.f, rd(s, e.a), num(e.k))))
    else if (e.op == "au") ok(update(s, e.d, fn2(e.f, rd(s, e.d), num(e.k))))
    else if (e.op == "set") ok(fresh(s, e.d, signed(limbsVal(e.s), e.k)))
    else if (e.op == "setnan") ok(fresh(s, e.d, NaN))
    else if (e.op == "cons") ok(fresh(s, e.d, num(e.k)))
    else if (e.op == "consb")
      ok(fresh(s, e.d, if (length(e.t) == 0) NaN else num(if (e.f == "be") beVal(e.t) else leVal(e.t))))
    else if (e.op == "clone") ok(shareTo(s, e.d, e.a))
    else if (e.op == "deep") ok(fresh(s, e.d, rd(s, e.a)))
    // the sign belongs to the handle alone
    else if (e.op == "setneg") ok({ ...s, neg: s.neg.replaceAt(e.d, rd(s, e.d).v != 0) })
    else if (e.op == "setnat") ok({ ...s, neg: s.neg.replaceAt(e.d, false) })
    else if (e.op == "o1") {
      pure val x = rd(s, e.a)
      if (x.nan) ok(fresh(s, e.d, NaN))
      else if (e.f == "neg") ok(fresh(s, e.d, num(-x.v)))
      else if (e.f == "not") ok(fresh(s, e.d, num(-x.v - 1)))
      // BigInt::from(the Nat that carries the magnitude) is private, too
      else if (e.f == "abs" or e.f == "ofmag") ok(fresh(s, e.d, num(iabs(x.v))))
      else if (e.f == "sqr") ok(fresh(s, e.d, num(x.v * x.v)))
      else if (e.f == "sqrt") {
        if (x.v < 0) ok(fresh(s, e.d, NaN))
        else { pure val g = shown(e, e.d)  relV(fresh(s, e.d, g), not(g.nan) and isIsqrt(g.v, x.v)) }
      }
      else stuck(s, "unknown")
    }
    else if (e.op == "o3") {
      pure val x = rd(s, e.a)
      pure val y = rd(s, e.b)
      pure val z = rd(s, e.c)
      if (x.nan or y.nan or z.nan) ok(fresh(s, e.d, NaN))
      else if (expOpen(x.v, y.v, z.v)) relV(fresh(s, e.d, shown(e, e.d)), true)
      else ok(fresh(s, e.d, expSem(x.v, y.v, z.v)))
    }
    else if (e.op == "random") {
      pure val x = rd(s, e.a)
      pure val g = shown(e, e.d)
      if (x.nan or x.v == 0) ok(fresh(s, e.d, NaN))
      else relV(fresh(s, e.d, g), not(g.nan) and (if (x.v > 0) 0 <= g.v and g.v < x.v else x.v < g.v and g.v <= 0))
    }
    else if (e.op == "randtop") {
      // many fair draws reach every eighth of the range between 0 and x, for any x
      pure val x = rd(s, e.a)
      if (x.nan or iabs(x.v) < 8) rel(s, { ...e, rt: [] }, true)
      else rel(s, { ...e, rt: [] }, eighthsHit(e.r, e.n))
    }
    else if (e.op == "parse") {
      pure val p = parseNat(afterMinus(e.t))
      if (openForm(e.t) and e.st == "err") stuck(s, "err")
      else if (not(p.ok)) stuck(s, "err")
      else if (p.nan and e.st == "err") stuck(s, "err")
      else ok(fresh(s, e.d, if (p.nan) NaN else num(if (isMinus(e.t)) -p.v else p.v)))
    }
    else if (e.op == "perr") {
      pure val p = parseNat(afterMinus(e.t))
      if (openForm(e.t) or (p.nan and p.ok)) rel(s, { ...e, rt: [] }, length(e.r) == 1)
      else okr(s, [natErrKind(afterMinus(e.t))])
    }
    else if (e.op == "q1" or e.op == "qbit" or e.op == "cmp" or e.op == "cmpu" or e.op == "fmt") queries(s, e)
    else numberTheory(s, e)

  // ------------------------------------------------------------ trace acceptance
  var ev: Ev
  var sys: State

  action init = all { ev' = noEv, sys' = initState }
  pure def admits(e: Ev, x: Res): bool =
    and { x.st == e.st, x.r == e.r, x.rt == e.rt, x.chk, projects(x.s, e.obs) }
  action accept = {
    val x = intNext(sys, ev)
    all { admits(ev, x), sys' = x.s, ev' = ev }
  }
  val wanted: Res = intNext(sys, ev)

  // ------------------------------------------------------------ free-running machine (MBT)
  pure val LIMBSETS: Set[List[int]] = Set([0], [1], [4294967295], [0, 1], [4294967295, 4294967295],
    [0, 0, 1], [2147483648], [7, 0, 2147483648], [5], [])
  action fire(e: Ev): bool = {
    val x = intNext(sys, e)
    all { not(readsStale(sys, e)), not(divides(e.f) and look(sys.st, e.b) == mag(0)), x.st == "ok", x.s.st.heap.foldl(true, (b, c) => b and c.v < 2^3000), sys' = x.s, ev' = e }
  }
  action step = {
    nondet d = 0.to(3).oneOf()
    nondet a = 0.to(3).oneOf()
    nondet b = 0.to(3).oneOf()
    nondet f2 = Set("add", "sub", "mul", "div", "rem", "reme", "dive", "and", "or", "xor", "andnot").oneOf()
    nondet k = Set(0, 1, 31, 32, 33, 64, 65).oneOf()
    nondet fs = Set("shl", "shr").oneOf()
    nondet l = LIMBSETS.oneOf()
    nondet g = 0.to(1).oneOf()
    any {
      fire({ ...noEv, op: "clone", d: d, a: a }),
      fire({ ...noEv, op: "deep", d: d, a: a }),
      fire({ ...noEv, op: "set", f: "vec", d: d, s: l, k: g }),
      fire({ ...noEv, op: "set", f: "slice", d: d, s: l, k: g }),
      fire({ ...noEv, op: "o2", f: f2, d: d, a: a, b: b }),
      fire({ ...noEv, op: "a2", f: f2, d: d, b: b }),
      fire({ ...noEv, op: "a2", f: f2, d: d, b: b }),
      fire({ ...noEv, op: "ou", f: fs, d: d, a: a, k: k }),
      fire({ ...noEv, op: "au", f: fs, d: d, k: k }),
      fire({ ...noEv, op: "o1", f: "not", d: d, a: a }),
      fire({ ...noEv, op: "o1", f: "neg", d: d, a: a }),
      fire({ ...noEv, op: "o1", f: "ofmag", d: d, a: a }),
      fire({ ...noEv, op: "setneg", d: d }),
      fire({ ...noEv, op: "setnat", d: d }),
    }
  }
}
