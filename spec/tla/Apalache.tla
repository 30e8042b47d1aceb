---- MODULE Apalache ----
\* TLC-executable versions of the few Apalache operators that `quint compile` emits
EXTENDS Integers, Sequences, FiniteSets
x := y == x = y
RECURSIVE ApaFoldSet(_, _, _)
ApaFoldSet(Op(_, _), v, S) == IF S = {} THEN v ELSE LET w == CHOOSE x \in S : TRUE IN ApaFoldSet(Op, Op(v, w), S \ {w})
RECURSIVE ApaFoldSeqLeft(_, _, _)
ApaFoldSeqLeft(Op(_, _), v, q) == IF q = <<>> THEN v ELSE ApaFoldSeqLeft(Op, Op(v, Head(q)), Tail(q))
MkSeq(n, F(_)) == [i \in 1..n |-> F(i)]
SetAsFun(S) == LET D == {x[1] : x \in S} IN [d \in D |-> (CHOOSE p \in S : p[1] = d)[2]]
====
