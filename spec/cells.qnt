// The ownership model that Nat, BigInt, Rat and Float share: a handle names a cell, `Clone`
// makes two handles name the same cell, everything that returns a new number makes a fresh
// cell, an op-assign writes the cell its left operand names.
module cells {
  type Store[v] = { env: List[int], heap: List[v] }

  pure def cellOf(s: Store[v], h: int): int = s.env[h]
  pure def look(s: Store[v], h: int): v = s.heap[s.env[h]]
  // first cell that no handle names; exists whenever there are more cells than handles
  pure def freeCell(s: Store[v]): int =
    s.heap.foldl({ c: 0, free: -1 }, (acc, _) => {
      c: acc.c + 1,
      free: if (acc.free != -1 or s.env.foldl(false, (b, e) => b or e == acc.c)) acc.free else acc.c
    }).free
  pure def putFresh(s: Store[v], d: int, x: v): Store[v] = {
    pure val c = freeCell(s)
    { env: s.env.replaceAt(d, c), heap: s.heap.replaceAt(c, x) }
  }
  pure def putShared(s: Store[v], d: int, x: v): Store[v] =
    { env: s.env, heap: s.heap.replaceAt(s.env[d], x) }
  pure def share(s: Store[v], d: int, a: int): Store[v] =
    { env: s.env.replaceAt(d, s.env[a]), heap: s.heap }
}

// Exhaustive check of the sharing discipline on a small instance: 3 handles, 4 cells, values 0..2.
module sharing {
  import cells.*
  type St = Store[int]
  var sto: St
  var old: List[int]     // what every handle showed before the last call
  var oldEnv: List[int]
  var op: str
  var dst: int

  pure val H = Set(0, 1, 2)
  pure def view(s: St): List[int] = [look(s, 0), look(s, 1), look(s, 2)]
  action init = all {
    sto' = { env: [0, 1, 2], heap: [0, 1, 2, 0] }, old' = [0, 1, 2], oldEnv' = [0, 1, 2], op' = "init", dst' = 0
  }
  action call(o: str, d: int, s: St): bool =
    all { sto' = s, old' = view(sto), oldEnv' = sto.env, op' = o, dst' = d }
  action step = {
    nondet d = H.oneOf()
    nondet a = H.oneOf()
    nondet b = H.oneOf()
    any {
      call("clone", d, share(sto, d, a)),
      call("deep", d, putFresh(sto, d, look(sto, a))),
      call("out", d, putFresh(sto, d, (look(sto, a) + look(sto, b)) % 3)),
      call("assign", d, putShared(sto, d, (look(sto, d) + look(sto, b) + 1) % 3)),
    }
  }
  // the destination of a call that makes a new number is shared with nobody
  val freshIsPrivate = (op == "deep" or op == "out") implies
    H.forall(h => h != dst implies sto.env[h] != sto.env[dst])
  // no call changes what a handle shows unless it is the destination or shares the assigned cell
  val isolation = H.forall(h => h != dst implies
    (look(sto, h) == old[h] or (op == "assign" and oldEnv[h] == oldEnv[dst])))
  // an assignment is seen through every sharing handle
  val visibility = H.forall(h => H.forall(g =>
    sto.env[h] == sto.env[g] implies look(sto, h) == look(sto, g)))
  // sharing is created by clone only
  val onlyCloneShares = H.forall(h => H.forall(g =>
    (h != g and sto.env[h] == sto.env[g] and oldEnv[h] != oldEnv[g]) implies op == "clone"))
  val freeExists = freeCell(sto) >= 0
  val discipline = freshIsPrivate and isolation and visibility and onlyCloneShares and freeExists
}
