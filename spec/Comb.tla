-------------------------------- MODULE Comb --------------------------------
(***************************************************************************)
(* Index-set combinatorics.  A k-subset of 0..m-1 is its ascending         *)
(* sequence; Combs(m, k) lists all of them in lexicographic order.         *)
(* MCComb checks this construction against the declarative definition      *)
(* (every subset once, strictly increasing, as many as Pascal's triangle   *)
(* says) for all small m and k.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Eager

RECURSIVE CombsFrom(_, _, _)
CombsFrom(lo, m, k) ==
  IF k = 0 THEN << <<>> >>
  ELSE FlattenSeq([f \in 1..(m - k + 1 - lo) |->
         LET rest == CombsFrom(lo + f, m, k - 1)
         IN  [i \in 1..Len(rest) |-> <<lo + f - 1>> \o rest[i]]])

Combs(m, k) == IF k > m THEN <<>> ELSE CombsFrom(0, m, k)

LexLess(a, b) == \E i \in 1..Len(a) : /\ \A j \in 1..(i-1) : a[j] = b[j]
                                      /\ a[i] < b[i]

\* Pascal's triangle up to row 33 (larger entries exceed 32 bits):
\* Pascal[m+1][k+1] = C(m, k).
Pascal == FoldLeft(LAMBDA rows, m :
            Append(rows, EagerSeq(m + 1, LAMBDA k :
              (IF k > 1 THEN rows[m][k-1] ELSE 0) + (IF k <= m THEN rows[m][k] ELSE 0))),
            << <<1>> >>, [m \in 1..33 |-> m])
Binomial(m, k) == IF k > m THEN 0 ELSE Pascal[m+1][k+1]

\* The same up to row 62 (all that 64 bits hold), as << hi, lo >> in base 10^9.
PlusBig(a, b) == LET lo == a[2] + b[2] IN <<a[1] + b[1] + lo \div 1000000000, lo % 1000000000>>
PascalBig == FoldLeft(LAMBDA rows, m :
               Append(rows, EagerSeq(m + 1, LAMBDA k :
                 PlusBig(IF k > 1 THEN rows[m][k-1] ELSE <<0, 0>>, IF k <= m THEN rows[m][k] ELSE <<0, 0>>))),
               << << <<0, 1>> >> >>, [m \in 1..62 |-> m])
BinomialBig(m, k) == IF k > m THEN <<0, 0>> ELSE PascalBig[m+1][k+1]

IsAscending(s) == \A i \in 1..(Len(s)-1) : s[i] < s[i+1]
SetOf(s) == {s[i] : i \in 1..Len(s)}

\* 0-based positions in s of the elements that also are / are not in u.
Positions(s, Keep(_)) ==
  LET idx == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : Keep(s[i]))
  IN  [i \in 1..Len(idx) |-> idx[i] - 1]
InterPos(s, u) == LET U == SetOf(u) IN Positions(s, LAMBDA x : x \in U)
DiffPos(s, u)  == LET U == SetOf(u) IN Positions(s, LAMBDA x : x \notin U)
=============================================================================
