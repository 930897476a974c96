----------------------------- MODULE MCExpCount -----------------------------
(***************************************************************************)
(* The numbers of values and digests of Exp are those of the tables of the *)
(* sharing scheme.                                                         *)
(***************************************************************************)
EXTENDS Exp, RssTab
CONSTANT Ns
VARIABLE n
Init == n \in Ns
Next == UNCHANGED n
Counts == With(Table(n, 2 * Threshold(n)), LAMBDA T :
  \A i, j \in 0..(n - 1) : i # j =>
    LET L == {c \in 1..T.comps : i \in T.hold[c] /\ j \notin T.hold[c]} IN
    /\ Values(n, i, j) = Cardinality({c \in L : T.first[c] = i})
    /\ Digests(n, i, j) = Cardinality({c \in L : T.first[c] # i}))
Share == Table(n, Threshold(n)).size = Choose(n - 1, Threshold(n))
=============================================================================
