// The pseudo random generators of rmath::rand as recurrences over unbounded integers, their
// construction rules, and the error latch of the iterator.  Four handles, each a private generator.
// A generator is its parameters p, the window w of the last words of its recurrence, and a carry c.
module rand {
  import core.* from "./core"

  type Gen = { kind: str, bits: int, p: List[int], w: List[int], c: int }
  type State = List[Gen]
  type Draw = { g: Gen, v: int }
  type Res = { st: str, r: List[int], rt: List[int], s: State, chk: bool }

  pure val HANDLES = 4
  pure val NOGEN: Gen = { kind: "none", bits: 32, p: [], w: [], c: 0 }
  pure val initState: State = [NOGEN, NOGEN, NOGEN, NOGEN]
  pure def wordBits(f: str): int = if (f == "u32") 32 else 64

  // ------------------------------------------------------------ linear congruential: p = [a, c, m]
  pure def lcgNext(p: List[int], x: int): int = (p[0] * x + p[1]) % p[2]

  // ------------------------------------------------------------ Mersenne twister
  // p = [w, n, m, r, a, u, d, s, b, t, c, l, f]; window x_k .. x_{k+n-1}
  pure def mtInit(p: List[int], seed: int): List[int] = {
    pure val M = 2^p[0]
    range(1, p[1]).foldl({ l: [seed % M], x: seed % M }, (z, i) => {
      pure val y = (p[12] * intXor(z.x, z.x / 2^(p[0] - 2)) + i) % M
      { l: z.l.append(y), x: y }
    }).l
  }
  // x_{k+n} = x_{k+m} xor (upper bits of x_k with the r lower bits of x_{k+1}) A
  pure def mtTwist(p: List[int], w: List[int]): int = {
    pure val R = 2^p[3]
    pure val y = w[0] - w[0] % R + w[1] % R
    pure val z = intXor(w[p[2]], y / 2)
    if (y % 2 == 1) intXor(z, p[4]) else z
  }
  pure def mtTemper(p: List[int], x: int): int = {
    pure val z1 = intXor(x, natAnd(x / 2^p[5], p[6]))
    pure val z2 = intXor(z1, natAnd(z1 * 2^p[7], p[8]))
    pure val z3 = intXor(z2, natAnd(z2 * 2^p[9], p[10]))
    intXor(z3, z3 / 2^p[11])
  }

  // ------------------------------------------------------------ lagged Fibonacci, subtract with carry
  // p = [w, s, r]; window x_{i-r} .. x_{i-1}; seeded from the generator 40014 x mod 2147483563
  pure val LFSEED: List[int] = [40014, 0, 2147483563]
  pure def lfInit(p: List[int], seed: int): { l: List[int], c: int } = {
    pure val n = (p[0] + 31) / 32
    pure val z = range(0, p[2]).foldl({ l: [], x: seed }, (a, _) => {
      pure val t = range(0, n).foldl({ v: 0, x: a.x }, (b, j) => {
        pure val y = lcgNext(LFSEED, b.x)
        { v: b.v + y * 2^(32 * j), x: y }
      })
      { l: a.l.append(t.v % 2^p[0]), x: t.x }
    })
    { l: z.l, c: b2i(z.l[p[2] - 1] == 0) }
  }

  // ------------------------------------------------------------ one draw
  pure def shift1(w: List[int], x: int): List[int] = slice(w, 1, length(w)).append(x)
  pure def draw(g: Gen): Draw =
    if (g.kind == "lcg") {
      pure val x = lcgNext(g.p, g.w[0])
      { g: { ...g, w: [x] }, v: x }
    } else if (g.kind == "mt") {
      pure val x = mtTwist(g.p, g.w)
      { g: { ...g, w: shift1(g.w, x) }, v: mtTemper(g.p, x) }
    } else if (g.kind == "lf") {
      pure val t = g.w[g.p[2] - g.p[1]] - g.w[0] - g.c
      pure val x = if (t < 0) t + 2^g.p[0] else t
      { g: { ...g, w: shift1(g.w, x), c: b2i(t < 0) }, v: x }
    } else { g: g, v: 0 }
  pure def draws(g: Gen, n: int): { g: Gen, l: List[int] } =
    range(0, n).foldl({ g: g, l: [] }, (z, _) => { pure val d = draw(z.g)  { g: d.g, l: z.l.append(d.v) } })

  // ------------------------------------------------------------ construction
  // verdict on parameters: 1 must be accepted, 0 must be rejected, 2 the documentation leaves it open
  pure def mtVerdict(p: List[int], bits: int): int = {
    pure val w = p[0]
    pure val bad = or {
      w <= 0, w > bits, p[2] <= 0, p[2] > p[1], p[3] <= 0, p[3] >= w, p[4] <= 0, p[12] <= 0,
      p[5] >= w, p[7] >= w, p[9] >= w, p[11] >= w,
      p[5] == 0 and p[6] == 0, p[7] == 0 and p[8] == 0, p[9] == 0 and p[10] == 0,
      w <= bits and or { p[4] >= 2^w, p[6] >= 2^w, p[8] >= 2^w, p[10] >= 2^w, p[12] >= 2^w }
    }
    if (bad) 0
    else if (p[5] == 0 or p[6] == 0 or p[7] == 0 or p[8] == 0 or p[9] == 0 or p[10] == 0 or p[11] == 0) 2
    else 1
  }
  pure def lfVerdict(p: List[int], bits: int): int =
    b2i(p[0] > 0 and p[0] <= bits and p[1] > 0 and p[1] < p[2])
  // m = n makes the Mersenne recurrence refer to the word it defines: nothing is claimed on its stream
  pure def build(kind: str, bits: int, p: List[int], seed: int): Gen =
    if (kind == "lcg") { kind: "lcg", bits: bits, p: p, w: [seed], c: 0 }
    else if (kind == "mt") {
      if (p[2] == p[1]) { ...NOGEN, kind: "wild" }
      else { kind: "mt", bits: bits, p: p, w: mtInit(p, seed), c: 0 }
    } else {
      pure val z = lfInit(p, seed)
      { kind: "lf", bits: bits, p: p, w: z.l, c: z.c }
    }
  pure def named(f: str): { kind: str, bits: int, p: List[int] } =
    if (f == "minstd_rand0") { kind: "lcg", bits: 32, p: [16807, 0, 2147483647] }
    else if (f == "minstd_rand") { kind: "lcg", bits: 32, p: [48271, 0, 2147483647] }
    else if (f == "mt19937") { kind: "mt", bits: 32,
      p: [32, 624, 397, 31, 0x9908b0df, 11, 0xffffffff, 7, 0x9d2c5680, 15, 0xefc60000, 18, 1812433253] }
    else if (f == "mt19937_64") { kind: "mt", bits: 64,
      p: [64, 312, 156, 31, 0xb5026f5aa96619e9, 29, 0x5555555555555555, 17, 0x71d67fffeda60000, 37, 0xfff7eee000000000, 43, 6364136223846793005] }
    else if (f == "ranlux24_base") { kind: "lf", bits: 32, p: [24, 10, 24] }
    else { kind: "lf", bits: 64, p: [48, 5, 12] }

  // ------------------------------------------------------------ error latch of Iter
  // script: the source's draws, -1 an error, an error for ever after its end; acts: 0 next,
  // 1 clear_error, 2 last_error, 3 a new iterator over the same source.
  // next: the value or -1 for None; last_error: 1/0
  pure def latch(script: List[int], acts: List[int]): List[int] =
    acts.foldl({ i: 0, bad: false, r: [] }, (z, a) =>
      if (a == 0) {
        if (z.bad) { ...z, r: z.r.append(-1) }
        else {
          pure val x = if (z.i < length(script)) script[z.i] else -1
          { i: z.i + 1, bad: x == -1, r: z.r.append(x) }
        }
      }
      else if (a == 2) { ...z, r: z.r.append(b2i(z.bad)) }
      else { ...z, bad: false }).r

  // ------------------------------------------------------------ transitions
  pure def ok(s: State): Res = { st: "ok", r: [], rt: [], s: s, chk: true }
  pure def okr(s: State, r: List[int]): Res = { st: "ok", r: r, rt: [], s: s, chk: true }
  // error kinds: 0 no seed, 1 no number, 2 divisor is zero, 3 invalid parameter
  pure def failed(s: State, k: int): Res = { st: "err", r: [k], rt: [], s: s, chk: true }
  pure def failAny(s: State, e: Ev): Res = { st: "err", r: e.r, rt: [], s: s, chk: e.r == [0] or e.r == [2] or e.r == [3] }
  pure def setH(s: State, d: int, g: Gen): State = s.replaceAt(d, g)

  // verdict v, kind k of a parameter error, e.b = 1: the seed fails
  pure def make(s: State, e: Ev, v: int, k: int, kind: str, bits: int, p: List[int]): Res =
    if (v == 0 and e.b == 1) failAny(s, e)
    else if (e.b == 1 and v == 2) failAny(s, e)
    else if (v == 0) failed(s, k)
    else if (e.b == 1) failed(s, 0)
    else if (v == 2 and e.st == "err") failed(s, k)
    else ok(setH(s, e.d, build(kind, bits, p, e.k)))

  pure def orAll(l: List[int]): int = l.foldl(0, (a, x) => if (x < 0) a else intOr(a, x))
  pure def andAll(l: List[int], bits: int): int = l.foldl(2^bits - 1, (a, x) => if (x < 0) a else natAnd(a, x))

  pure def randNext(s: State, e: Ev): Res =
    if (e.op == "reset") ok(initState)
    else if (e.op == "lcg") make(s, e, b2i(e.s[2] != 0), 2, "lcg", wordBits(e.f), e.s)
    else if (e.op == "mt") make(s, e, mtVerdict(e.s, wordBits(e.f)), 3, "mt", wordBits(e.f), e.s)
    else if (e.op == "lf") make(s, e, lfVerdict(e.s, wordBits(e.f)), 3, "lf", wordBits(e.f), e.s)
    else if (e.op == "named") { pure val g = named(e.f)  make(s, e, 1, 3, g.kind, g.bits, g.p) }
    else if (e.op == "gen" or e.op == "iter") {
      if (s[e.d].kind == "wild") { st: "ok", r: e.r, rt: [], s: s, chk: length(e.r) == e.n }
      else { pure val z = draws(s[e.d], e.n)  okr(setH(s, e.d, z.g), z.l) }
    }
    else if (e.op == "reseed") {
      pure val g = s[e.d]
      if (e.b == 1) failed(s, 0)
      else if (g.kind == "wild") ok(s)
      else ok(setH(s, e.d, build(g.kind, g.bits, g.p, e.k)))
    }
    else if (e.op == "clone") ok(setH(s, e.d, s[e.a]))
    else if (e.op == "latch") okr(s, latch(e.s, e.t))
    // PrimitiveType: bits_len and mask of k <= bits_len
    else if (e.op == "mask") okr(s, [wordBits(e.f), 2^e.k - 1])
    // hardware sources: n draws (one by one, after a reset, through the iterator), an error is -1; with enough draws every bit takes both values
    else if (e.op == "hw") {
      pure val got = e.r.foldl(0, (a, x) => if (x < 0) a else a + 1)
      { st: "ok", r: e.r, rt: [], s: s, chk: and {
        length(e.r) == e.n,
        e.r.foldl(true, (b, x) => b and x < 2^wordBits(e.f)),
        got < 128 or (orAll(e.r) == 2^wordBits(e.f) - 1 and andAll(e.r, wordBits(e.f)) == 0) } }
    }
    else { st: "unknown", r: [], rt: [], s: s, chk: false }

  // observed per handle: [1, the next number a clone of it would give], [0, 0] without a generator
  pure def seen(g: Gen, o: List[int]): bool =
    if (g.kind == "none") o == [0, 0]
    else if (g.kind == "wild") length(o) == 2 and o[0] == 1
    else o == [1, draw(g).v]
  pure def projects(s: State, obs: List[List[int]]): bool = and {
    length(obs) == HANDLES,
    range(0, HANDLES).foldl(true, (b, h) => b and seen(s[h], obs[h]))
  }

  var ev: Ev
  var sys: State
  action init = all { ev' = noEv, sys' = initState }
  pure def admits(e: Ev, x: Res): bool =
    and { x.st == e.st, x.r == e.r, x.rt == e.rt, x.chk, projects(x.s, e.obs) }
  action accept = {
    val x = randNext(sys, ev)
    all { admits(ev, x), sys' = x.s, ev' = ev }
  }
  val wanted: Res = { ...randNext(sys, ev), s: [] }

  // known answers of the reference generators (C++ standard, first draws for the default seeds)
  run knownAnswers = all {
    assert(draw(build("mt", 32, named("mt19937").p, 5489)).v == 3499211612),
    assert(draw(build("mt", 64, named("mt19937_64").p, 5489)).v == 14514284786278117030),
    assert(draws(build("lcg", 32, named("minstd_rand0").p, 1), 3).l == [16807, 282475249, 1622650073]),
    assert(draws(build("lf", 32, named("ranlux24_base").p, 19780503), 10000).l[9999] == 7937952),
    assert(draws(build("lf", 64, named("ranlux48_base").p, 19780503), 10000).l[9999] == 61839128582725),
    init
  }

  // ------------------------------------------------------------ free-running machine (MBT)
  action fire(e: Ev): bool = {
    val x = randNext(sys, e)
    all { x.st == "ok", sys' = x.s, ev' = { ...e, r: x.r } }
  }
  action step = {
    nondet d = 0.to(3).oneOf()
    nondet a = 0.to(3).oneOf()
    nondet k = Set(0, 1, 2, 5489, 2147483562, 2147483563, 2147483646, 4294967295).oneOf()
    nondet n = 1.to(9).oneOf()
    nondet f = Set("minstd_rand0", "minstd_rand", "ranlux24_base", "ranlux48_base").oneOf()
    nondet l = Set([5, 3, 16], [4294967295, 4294967295, 4294967295], [3, 1, 1], [7, 4294967291, 4294967290]).oneOf()
    nondet q = Set([32, 1, 2], [31, 2, 5], [1, 1, 3], [32, 6, 7]).oneOf()
    nondet m = Set([32, 4, 2, 31, 0x9908b0df, 11, 0xffffffff, 7, 0x9d2c5680, 15, 0xefc60000, 18, 1812433253],
                   [8, 3, 1, 3, 0x9d, 3, 0xff, 2, 0x56, 5, 0xe0, 4, 77], [2, 2, 1, 1, 3, 1, 3, 1, 3, 1, 2, 1, 3]).oneOf()
    any {
      fire({ ...noEv, op: "clone", d: d, a: a }),
      fire({ ...noEv, op: "named", f: f, d: d, k: k }),
      fire({ ...noEv, op: "lcg", f: "u32", d: d, k: k, s: l }),
      fire({ ...noEv, op: "lf", f: "u32", d: d, k: k, s: q }),
      fire({ ...noEv, op: "mt", f: "u32", d: d, k: k, s: m }),
      all { sys[d].kind != "none", fire({ ...noEv, op: "gen", d: d, n: n }) },
      all { sys[d].kind != "none", fire({ ...noEv, op: "gen", d: d, n: n }) },
      all { sys[d].kind != "none", fire({ ...noEv, op: "iter", d: d, n: n }) },
      all { sys[d].kind != "none", fire({ ...noEv, op: "reseed", d: d, k: k }) },
    }
  }
}
