------------------------------- MODULE RssTab -------------------------------
(***************************************************************************)
(* Who holds what in the replicated secret sharing scheme for n parties    *)
(* with threshold t.  A component exists for every (n-t)-subset of the     *)
(* parties, in lexicographic order, and is held by the members of that     *)
(* subset; a party stores its components in ascending order.  Components   *)
(* and positions are numbered from 1 here, parties from 0.                 *)
(***************************************************************************)
EXTENDS Comb

Table(n, t) ==
  With(Combs(n, n - t), LAMBDA sets :
  With(EagerSeq(Len(sets), LAMBDA c : SetOf(sets[c])), LAMBDA hold :
  With(EagerFcn(0..(n-1), LAMBDA p :
         SelectSeq([c \in 1..Len(sets) |-> c], LAMBDA c : p \in hold[c])), LAMBDA idx :
  With(EagerSeq(Len(sets), LAMBDA c :
         LET p == Head(sets[c]) IN CHOOSE j \in 1..Len(idx[p]) : idx[p][j] = c), LAMBDA fpos :
      [ n     |-> n,
        t     |-> t,
        sets  |-> sets,           \* c -> ascending holders
        hold  |-> hold,           \* c -> set of holders
        idx   |-> idx,            \* p -> ascending components
        comps |-> Len(sets),      \* components in a sharing
        size  |-> Len(idx[0]),    \* components of one party
        first |-> EagerSeq(Len(sets), LAMBDA c : Head(sets[c])),  \* first holder
        fpos  |-> fpos ]))))      \* c -> its position in the first holder's share
Tables(Cfgs) == EagerFcn(Cfgs, LAMBDA c : Table(c[1], c[2]))

\* Any t parties miss a component, any t+1 have all of them.
Threshold(T) ==
  /\ \A S \in SUBSET (0..(T.n-1)) : Cardinality(S) = T.t =>
        \E c \in 1..T.comps : T.hold[c] \cap S = {}
  /\ \A S \in SUBSET (0..(T.n-1)) : Cardinality(S) = T.t + 1 =>
        \A c \in 1..T.comps : T.hold[c] \cap S # {}
=============================================================================
