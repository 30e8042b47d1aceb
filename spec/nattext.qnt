// Numerals of natural numbers: what is printed and what is accepted.
module natText {
  import core.* from "./core"

  pure val TNAN: List[int] = [78, 97, 78]
  pure def natFmtOk(f: str, n: int, t: List[int]): bool =
    if (f == "d" or f == "Ad") isNumeral(t, n, 10, false)
    else if (f == "b") isNumeral(t, n, 2, false)
    else if (f == "o") isNumeral(t, n, 8, false)
    else if (f == "x" or f == "g") isNumeral(t, n, 16, false)
    else if (f == "X") isNumeral(t, n, 16, true)
    else if (f == "Ab") hasPrefix(t, [48, 98]) and isNumeral(dropN(t, 2), n, 2, false)
    else if (f == "Ao") hasPrefix(t, [48, 111]) and isNumeral(dropN(t, 2), n, 8, false)
    else if (f == "Ax" or f == "Ag") hasPrefix(t, [48, 120]) and isNumeral(dropN(t, 2), n, 16, false)
    else if (f == "AX") hasPrefix(t, [48, 120]) and isNumeral(dropN(t, 2), n, 16, true)
    else false

  // grammar: blanks* ('+' | ' ')* numeral blanks*, numeral = 0b.. | 0o.. | 0x.. | decimal without leading zero
  pure def isBlank(c: int): bool = c == 32 or ch(c, 9, 13)
  pure def skipWhile(t: List[int], p: (int) => bool): List[int] =
    dropN(t, t.foldl({ k: 0, go: true }, (s, c) => if (s.go and p(c)) { ...s, k: s.k + 1 } else { ...s, go: false }).k)
  pure def trimEnd(t: List[int], p: (int) => bool): List[int] =
    slice(t, 0, t.foldl({ i: 0, last: 0 }, (s, c) => { i: s.i + 1, last: if (p(c)) s.last else s.i + 1 }).last)
  pure def trimBlank(t: List[int]): List[int] = skipWhile(trimEnd(t, isBlank), isBlank)
  // nan: a radix prefix without digits
  type Parsed = { ok: bool, nan: bool, v: int }
  pure val REJECT: Parsed = { ok: false, nan: true, v: 0 }
  pure def radixBody(t: List[int], base: int): Parsed =
    if (not(allDigits(t, base))) REJECT
    else if (length(t) == 0) { ok: true, nan: true, v: 0 }
    else { ok: true, nan: false, v: digitsVal(t, base) }
  // why a numeral is refused, -1: it is not; 0: no digit, or 0 and no radix letter, to begin with; 1: a wrong digit later
  pure def natErrKind(t0: List[int]): int = {
    pure val t = skipWhile(trimBlank(t0), c => c == 43 or c == 32)
    if (parseNat(t0).ok) -1
    else if (length(t) == 0 or not(ch(t[0], 48, 57))) 0
    else if (t[0] == 48 and length(t) > 1 and not(isRadixLetter(t[1]))) 0
    else 1
  }
  pure def isRadixLetter(c: int): bool = c == 111 or c == 98 or c == 66 or c == 120 or c == 88
  pure def parseNat(t0: List[int]): Parsed = {
    pure val t = skipWhile(trimBlank(t0), c => c == 43 or c == 32)
    if (length(t) == 0) REJECT
    else if (not(ch(t[0], 48, 57))) REJECT
    else if (t[0] != 48 or length(t) == 1) radixBody(t, 10)
    else if (t[1] == 111) radixBody(dropN(t, 2), 8)
    else if (t[1] == 98 or t[1] == 66) radixBody(dropN(t, 2), 2)
    else if (t[1] == 120 or t[1] == 88) radixBody(dropN(t, 2), 16)
    else REJECT
  }
}
