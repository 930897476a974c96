-------------------------------- MODULE Rank --------------------------------
(***************************************************************************)
(* Linear independence over a field given by Minus2, Times2, Zero0 and     *)
(* One1.  Several values dealt at random several times are independent     *)
(* when no combination of them, other than the empty one, is the same in   *)
(* all the deals: with a row per deal and a column per value, and a column *)
(* of ones, the columns are independent.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Eager
CONSTANTS Minus2(_, _), Times2(_, _), Zero0, One1

\* One step of elimination, without divisions: row k is the pivot; the first
\* column and row k disappear.
Eliminate(rows, k) ==
  With(rows[k], LAMBDA p :
    EagerSeq(Len(rows) - 1, LAMBDA a :
      With(rows[IF a < k THEN a ELSE a + 1], LAMBDA q :
        EagerSeq(Len(p) - 1, LAMBDA c :
          Minus2(Times2(p[1], q[c + 1]), Times2(q[1], p[c + 1]))))))
RECURSIVE FullRank(_)
FullRank(rows) ==
  IF Len(rows) = 0 THEN FALSE
  ELSE IF Len(rows[1]) = 0 THEN TRUE
  ELSE LET piv == {k \in 1..Len(rows) : rows[k][1] # Zero0} IN
       IF piv = {} THEN FALSE
       ELSE IF Len(rows[1]) = 1 THEN TRUE
       ELSE IF Len(rows) = 1 THEN FALSE
       ELSE With(Eliminate(rows, CHOOSE k \in piv : TRUE), FullRank)

\* No combination of the values is constant over all the deals.
Independent(deals) == FullRank(EagerSeq(Len(deals), LAMBDA a : <<One1>> \o deals[a]))
\* The deals that are needed to tell: with one more than columns, values that
\* are dealt independently are practically never dependent.
Needed(values) == values + 2
=============================================================================
