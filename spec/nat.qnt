// The Nat machine: four handles onto shared cells.  `Clone` shares a cell, `deep_clone` and
// every out-of-place operator make a fresh one, an op-assign updates the cell that all
// sharing handles see.  A cell holds a natural number or NaN.
module nat {
  import core.* from "./core"
  import cells.* from "./cells"
  import natText.* from "./nattext"

  type Val = { nan: bool, v: int }
  type State = Store[Val]
  // a handle is observed as [number of limbs, value]
  type Obs = List[int]
  // outcome demanded by the specification; chk is the relational part (about ev's outputs)
  type Res = { st: str, r: List[int], rt: List[int], s: State, chk: bool }

  pure val NaN: Val = { nan: true, v: 0 }
  pure def num(x: int): Val = { nan: false, v: x }

  // ------------------------------------------------------------ cells and handles
  pure val HANDLES = 4
  pure val initState: State = { env: [0, 1, 2, 3], heap: [num(0), num(0), num(0), num(0), NaN] }
  pure def rd(s: State, h: int): Val = look(s, h)
  // the canonical representation: no leading zero limb, NaN is the empty vector
  pure def seen(x: Val, o: Obs): bool = length(o) == 2 and o[1] == x.v and (if (x.nan) o[0] == 0 else isLimbs(o[0], x.v))
  pure def projects(s: State, obs: List[Obs]): bool = and {
    length(obs) == HANDLES,
    range(0, HANDLES).foldl(true, (b, h) => b and seen(rd(s, h), obs[h]))
  }
  // value shown by handle h after the call, NaN when it has no limb
  pure def shown(e: Ev, h: int): Val =
    if (e.obs[h][0] == 0) NaN else num(e.obs[h][1])

  // ------------------------------------------------------------ value functions
  pure def natBits(x: Val): int = if (x.nan) 0 else imax(1, blen(x.v))
  pure def expSem(x: int, e: int, n: int): int =
    if (n == 0) powz(x, e) else powMod(x, e, n)

  pure def fn2(f: str, x: Val, y: Val): Val =
    if (x.nan or y.nan) NaN
    else if (f == "add") num(x.v + y.v)
    else if (f == "sub" or f == "subs") num(iabs(x.v - y.v))
    else if (f == "mul" or f == "mulk") num(x.v * y.v)
    else if (f == "div") num(x.v / y.v)
    else if (f == "rem") num(x.v % y.v)
    else if (f == "and") num(natAnd(x.v, y.v))
    else if (f == "or") num(intOr(x.v, y.v))
    else if (f == "xor") num(intXor(x.v, y.v))
    else if (f == "andnot") num(intAndNot(x.v, y.v))
    else if (f == "pow") num(powz(x.v, y.v))
    else if (f == "shl") num(x.v * 2^y.v)
    else if (f == "shr") num(if (y.v >= blen(x.v)) 0 else x.v / 2^y.v)
    else NaN
  // the documented panic: a zero divisor or modulus (NaN wins over it)
  pure def panics2(f: str, x: Val, y: Val): bool =
    (f == "div" or f == "rem") and not(x.nan) and not(y.nan) and y.v == 0
  // sub_with_sign also says whether x >= y
  pure def ret2(f: str, x: Val, y: Val): List[int] =
    if (f != "subs") []
    else [b2i(not(x.nan) and not(y.nan) and x.v >= y.v)]

  pure def cmpRet(x: Val, y: Val): List[int] =
    if (x.nan or y.nan) [9, 0, 1, 0, 0, 0, 0]
    else [isgn(x.v - y.v), b2i(x.v == y.v), b2i(x.v != y.v), b2i(x.v < y.v), b2i(x.v <= y.v),
          b2i(x.v > y.v), b2i(x.v >= y.v)]

  // ------------------------------------------------------------ text (grammar in nattext.qnt)
  pure def fmtOk(f: str, x: Val, t: List[int]): bool = if (x.nan) t == TNAN else natFmtOk(f, x.v, t)

  // ------------------------------------------------------------ transition relation
  pure def ok(s: State): Res = { st: "ok", r: [], rt: [], s: s, chk: true }
  pure def okr(s: State, r: List[int]): Res = { st: "ok", r: r, rt: [], s: s, chk: true }
  pure def rel(s: State, e: Ev, c: bool): Res = { st: "ok", r: e.r, rt: e.rt, s: s, chk: c }
  pure def stuck(s: State, st: str): Res = { st: st, r: [], rt: [], s: s, chk: true }

  pure def limbsVal(l: List[int]): Val =
    if (length(l) == 0) NaN
    else num(l.foldl({ v: 0, p: 1 }, (a, b) => { v: a.v + a.p * b, p: a.p * 4294967296 }).v)

  pure def natNext(s: State, e: Ev): Res =
    if (e.op == "reset") ok(initState)
    else if (e.op == "o2") {
      pure val x = rd(s, e.a)
      pure val y = rd(s, e.b)
      if (panics2(e.f, x, y)) stuck(s, "panic")
      else okr(putFresh(s, e.d, fn2(e.f, x, y)), ret2(e.f, x, y))
    }
    else if (e.op == "a2") {
      pure val x = rd(s, e.d)
      pure val y = rd(s, e.b)
      // op-assign is undefined after a panic; the driver ends the trace there
      if (panics2(e.f, x, y)) { ...stuck(s, "panic"), chk: true }
      else okr(putShared(s, e.d, fn2(e.f, x, y)), ret2(e.f, x, y))
    }
    else if (e.op == "ou") {
      pure val x = rd(s, e.a)
      if (panics2(e.f, x, num(e.k))) stuck(s, "panic")
      else ok(putFresh(s, e.d, fn2(e.f, x, num(e.k))))
    }
    else if (e.op == "au") {
      pure val x = rd(s, e.d)
      if (panics2(e.f, x, num(e.k))) stuck(s, "panic")
      else ok(putShared(s, e.d, fn2(e.f, x, num(e.k))))
    }
    else if (e.op == "set") ok(putFresh(s, e.d, limbsVal(e.s)))
    else if (e.op == "setnan") ok(putFresh(s, e.d, NaN))
    else if (e.op == "cons") ok(putFresh(s, e.d, num(e.k)))
    else if (e.op == "consb")
      ok(putFresh(s, e.d, if (length(e.t) == 0) NaN else num(if (e.f == "be") beVal(e.t) else leVal(e.t))))
    else if (e.op == "clone") ok(share(s, e.d, e.a))
    else if (e.op == "deep") ok(putFresh(s, e.d, rd(s, e.a)))
    else if (e.op == "o1") {
      pure val x = rd(s, e.a)
      if (x.nan) ok(putFresh(s, e.d, NaN))
      else if (e.f == "not") ok(putFresh(s, e.d, num(2^natBits(x) - 1 - x.v)))
      else if (e.f == "sqr") ok(putFresh(s, e.d, num(x.v * x.v)))
      else if (e.f == "sqrt") {
        pure val g = shown(e, e.d)
        rel(putFresh(s, e.d, g), { ...e, r: [], rt: [] }, not(g.nan) and isIsqrt(g.v, x.v))
      }
      else stuck(s, "unknown")
    }
    else if (e.op == "o3") {
      pure val x = rd(s, e.a)
      pure val y = rd(s, e.b)
      pure val z = rd(s, e.c)
      ok(putFresh(s, e.d, if (x.nan or y.nan or z.nan) NaN else num(expSem(x.v, y.v, z.v))))
    }
    else if (e.op == "q1") {
      pure val x = rd(s, e.a)
      if (e.f == "bits") okr(s, [natBits(x)])
      else if (e.f == "isnan") okr(s, [b2i(x.nan)])
      else if (e.f == "tz") (if (x.nan) okr(s, [0]) else if (x.v == 0) rel(s, { ...e, rt: [] }, true) else okr(s, [tzeros(x.v)]))
      else {
        // bytes: shortest little/big endian byte string of the value, one zero byte for 0, none for NaN
        pure val le = e.f == "le" or e.f == "cle"
        pure val len = if (x.nan) 0 else imax(1, (blen(x.v) + 7) / 8)
        rel(s, { ...e, rt: [] }, length(e.r) == len and allBytes(e.r) and (if (le) leVal(e.r) else beVal(e.r)) == x.v)
      }
    }
    else if (e.op == "qbit") {
      pure val x = rd(s, e.a)
      okr(s, [if (e.k >= natBits(x)) -1 else b2i(bitAt(x.v, e.k))])
    }
    else if (e.op == "cmp") okr(s, cmpRet(rd(s, e.a), rd(s, e.b)))
    else if (e.op == "cmpu") okr(s, cmpRet(rd(s, e.a), num(e.k)))
    else if (e.op == "fmt") rel(s, { ...e, r: [] }, fmtOk(e.f, rd(s, e.a), e.rt))
    else if (e.op == "parse") {
      pure val p = parseNat(e.t)
      if (not(p.ok)) stuck(s, "err")
      // a prefix without digits carries no number: NaN or a parse error
      else if (p.nan and e.st == "err") stuck(s, "err")
      else ok(putFresh(s, e.d, if (p.nan) NaN else num(p.v)))
    }
    else if (e.op == "perr") {
      if (parseNat(e.t).nan and parseNat(e.t).ok) rel(s, { ...e, rt: [] }, length(e.r) == 1)
      else okr(s, [natErrKind(e.t)])
    }
    // 2: the parameters are wrong
    else if (e.op == "gperr") okr(s, [if (e.n < 2) 2 else -1])
    else if (e.op == "random") {
      pure val x = rd(s, e.a)
      pure val g = shown(e, e.d)
      if (x.nan or x.v == 0) ok(putFresh(s, e.d, NaN))
      else rel(putFresh(s, e.d, g), { ...e, r: [], rt: [] }, not(g.nan) and g.v < x.v)
    }
    else if (e.op == "randcover") {
      // e.r[i] = how often value i was drawn; every value of [0, n) must occur, nothing else
      pure val x = rd(s, e.a)
      rel(s, { ...e, rt: [] }, length(e.r) == x.v and e.r.foldl(true, (b, c) => b and c > 0) and lsum(e.r) == e.n)
    }
    else if (e.op == "randtop") {
      // many fair draws reach every eighth of [0, x), for any x
      pure val x = rd(s, e.a)
      if (x.nan or x.v < 8) rel(s, { ...e, rt: [] }, true)
      else rel(s, { ...e, rt: [] }, eighthsHit(e.r, e.n))
    }
    else if (e.op == "prime") {
      pure val x = rd(s, e.a)
      pure val truth = if (x.nan) 0 else certified(x.v, e.g)
      if (truth == 3) stuck(s, "bad-certificate")
      // a prime is accepted whatever the source draws; a composite is rejected up to the error
      // probability 2^-n: demanded when at least 20 rounds draw from the fair part of the source
      else if (truth == 1) okr(s, [1])
      else if (truth == 0 and (e.n - length(e.s) >= 20 or x.nan or x.v < 4 or x.v % 2 == 0)) okr(s, [0])
      else rel(s, { ...e, rt: [] }, e.r == [0] or e.r == [1])
    }
    else if (e.op == "genprime") {
      pure val g = shown(e, e.d)
      if (e.n < 2) stuck(s, "err")
      else rel(putFresh(s, e.d, g), { ...e, r: [], rt: [] },
               and { not(g.nan), blen(g.v) == e.n, e.m < 20 or isPrimeSmall(g.v), e.n == 2 or g.v % 2 == 1 })
    }
    else stuck(s, "unknown")

  // ------------------------------------------------------------ trace acceptance
  var ev: Ev
  var sys: State

  action init = all { ev' = noEv, sys' = initState }
  pure def admits(e: Ev, x: Res): bool =
    and { x.st == e.st, x.r == e.r, x.rt == e.rt, x.chk, projects(x.s, e.obs) }
  action accept = {
    val x = natNext(sys, ev)
    all { admits(ev, x), sys' = x.s, ev' = ev }
  }
  val wanted: Res = natNext(sys, ev)

  // ------------------------------------------------------------ free-running machine (MBT)
  pure val LIMBSETS: Set[List[int]] = Set([0], [1], [4294967295], [0, 1], [4294967295, 4294967295],
    [0, 0, 1], [2147483648], [7, 0, 2147483648], [5], [])
  action fire(e: Ev): bool = {
    val x = natNext(sys, e)
    all { x.st == "ok", x.s.heap.foldl(true, (b, c) => b and c.v < 2^3000), sys' = x.s, ev' = e }
  }
  action step = {
    nondet d = 0.to(3).oneOf()
    nondet a = 0.to(3).oneOf()
    nondet b = 0.to(3).oneOf()
    nondet f2 = Set("add", "sub", "mul", "div", "rem", "and", "or", "xor", "andnot").oneOf()
    nondet k = Set(0, 1, 31, 32, 33, 64, 65).oneOf()
    nondet fs = Set("shl", "shr", "add", "sub", "mul").oneOf()
    nondet l = LIMBSETS.oneOf()
    any {
      fire({ ...noEv, op: "clone", d: d, a: a }),
      fire({ ...noEv, op: "clone", d: d, a: a }),
      fire({ ...noEv, op: "deep", d: d, a: a }),
      fire({ ...noEv, op: "set", f: "vec", d: d, s: l }),
      fire({ ...noEv, op: "set", f: "slice", d: d, s: l }),
      fire({ ...noEv, op: "o2", f: f2, d: d, a: a, b: b }),
      fire({ ...noEv, op: "a2", f: f2, d: d, b: b }),
      fire({ ...noEv, op: "a2", f: f2, d: d, b: b }),
      fire({ ...noEv, op: "ou", f: fs, d: d, a: a, k: k }),
      fire({ ...noEv, op: "au", f: fs, d: d, k: k }),
      fire({ ...noEv, op: "o1", f: "not", d: d, a: a }),
      fire({ ...noEv, op: "o1", f: "sqr", d: d, a: a }),
    }
  }
  // design-level invariants of the sharing discipline
  val wellFormed = and {
    length(sys.env) == HANDLES, length(sys.heap) == HANDLES + 1,
    range(0, HANDLES).foldl(true, (b, h) => b and ch(sys.env[h], 0, HANDLES)),
    freeCell(sys) >= 0,
    sys.heap.foldl(true, (b, x) => b and x.v >= 0 and (not(x.nan) or x.v == 0))
  }
}
