// The error latch of the draw iterator as a transition system over an arbitrary source: every draw of
// the source may succeed or fail.  Checked exhaustively with TLC; the functional form used to validate
// recorded histories (rand.qnt, `latch`) is checked here to be the run of this system.
module latch {
  import rand as R from "./rand"

  pure val DEPTH = 6
  var script: List[int] // what the source has delivered so far, -1 an error
  var acts: List[int]   // calls made so far: 0 next, 1 clear_error, 2 last_error, 3 new iterator
  var bad: bool
  var out: List[int]

  action init = all { script' = [], acts' = [], bad' = false, out' = [] }
  action step = all {
    length(acts) < DEPTH,
    nondet x = Set(-1, 0, 7).oneOf()
    any {
      // next on a healthy iterator draws once
      all { not(bad), script' = script.append(x), bad' = (x == -1), out' = out.append(x), acts' = acts.append(0) },
      all { bad, script' = script, bad' = bad, out' = out.append(-1), acts' = acts.append(0) },
      all { script' = script, bad' = false, out' = out, acts' = acts.append(1) },
      all { script' = script, bad' = bad, out' = out.append(if (bad) 1 else 0), acts' = acts.append(2) },
      all { script' = script, bad' = false, out' = out, acts' = acts.append(3) },
    }
  }
  // the recorded-history oracle predicts exactly what this system returns
  val functional = out == R::latch(script, acts)
  // a value is handed out at most once and in order: the successes of the source are the successes seen
  pure def good(l: List[int]): List[int] = l.foldl([], (a, x) => if (x == -1) a else a.append(x))
  pure def nexts(a: List[int], o: List[int]): List[int] =
    a.foldl({ i: 0, l: [] }, (z, c) =>
      if (c == 0) { i: z.i + 1, l: if (o[z.i] == -1) z.l else z.l.append(o[z.i]) }
      else if (c == 2) { ...z, i: z.i + 1 } else z).l
  val inOrder = nexts(acts, out) == good(script)
  // an error stays reported until it is cleared or the iterator is replaced
  val sticky = bad implies (length(script) > 0 and script[length(script) - 1] == -1)
  val latchOk = functional and inOrder and sticky
}
