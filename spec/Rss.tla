-------------------------------- MODULE Rss --------------------------------
(***************************************************************************)
(* Replicated secret sharing over a field given by its operations.  T is a *)
(* table of RssTab; a sharing is a function from parties to sequences.     *)
(***************************************************************************)
EXTENDS RssTab

CONSTANTS Plus(_, _), Minus(_, _), Times(_, _), SumOf(_), Nil, IsVal(_)

Parties(T) == 0..(T.n - 1)

\* The sharing with the given components.
Deal(T, comps) == [p \in Parties(T) |-> [j \in 1..T.size |-> comps[T.idx[p][j]]]]

\* Shape only: one sequence of the right length for each party.
Shaped(T, s) == /\ DOMAIN s = Parties(T)
                /\ \A p \in Parties(T) : /\ Len(s[p]) = T.size
                                         /\ \A j \in 1..T.size : IsVal(s[p][j])

\* The component values according to the first holder of each.
CompsOf(T, s) == [c \in 1..T.comps |-> s[T.first[c]][T.fpos[c]]]

\* All holders of a component have the same value.
Consistent(T, s) == LET cs == CompsOf(T, s) IN
  \A p \in Parties(T) : \A j \in 1..T.size : s[p][j] = cs[T.idx[p][j]]

\* The shared value (of a consistent sharing).
Value(T, s) == SumOf(CompsOf(T, s))

IsSharing(T, s)       == Shaped(T, s) /\ Consistent(T, s)
IsSharingOf(T, s, v)  == IsSharing(T, s) /\ Value(T, s) = v

(* Linear operations, party by party.  Constants go on component 1.        *)
Map(T, s, Op(_)) == [p \in Parties(T) |-> [j \in 1..T.size |-> Op(s[p][j])]]
AddS(T, a, b) == [p \in Parties(T) |-> [j \in 1..T.size |-> Plus(a[p][j], b[p][j])]]
SubS(T, a, b) == [p \in Parties(T) |-> [j \in 1..T.size |-> Minus(a[p][j], b[p][j])]]
AddC(T, a, c) == [p \in Parties(T) |-> [j \in 1..T.size |->
                    IF T.idx[p][j] = 1 THEN Plus(a[p][j], c) ELSE a[p][j]]]
SubC(T, a, c) == [p \in Parties(T) |-> [j \in 1..T.size |->
                    IF T.idx[p][j] = 1 THEN Minus(a[p][j], c) ELSE a[p][j]]]
CSub(T, c, a) == AddC(T, Map(T, a, LAMBDA x : Minus(Nil, x)), c)
MulC(T, a, c) == Map(T, a, LAMBDA x : Times(x, c))

(* Local multiplication from threshold d to 2d.  The product of components *)
(* i and j is assigned to the first n-2d of their common holders; within   *)
(* this set its first member owns it for additive sharings.                *)
Target(T, D, i, j) ==
  LET common == SelectSeq(T.sets[i], LAMBDA p : p \in T.hold[j])
      set    == TLCEval(SubSeq(common, 1, T.n - 2 * T.t))
  IN  CHOOSE c \in 1..D.comps : D.sets[c] = set
PairTable(T, D) == [i \in 1..T.comps |-> [j \in 1..T.comps |-> Target(T, D, i, j)]]

RECURSIVE SumPairs(_, _, _, _)
SumPairs(x, y, pairs, acc) ==
  IF pairs = <<>> THEN acc
  ELSE SumPairs(x, y, Tail(pairs), Plus(acc, Times(x[Head(pairs)[1]], y[Head(pairs)[2]])))
PairsTo(T, PT, c) == SetToSeq({ij \in (1..T.comps) \X (1..T.comps) : PT[ij[1]][ij[2]] = c})

\* Component c of the degree-2d product, from the components x and y.
ProductComps(T, D, PT, x, y) ==
  [c \in 1..D.comps |-> SumPairs(x, y, PairsTo(T, PT, c), Nil)]
\* The additive product share of party p.
AdditiveProduct(T, D, PT, x, y, p) ==
  SumOf(SelectSeq([c \in 1..D.comps |->
            IF D.first[c] = p THEN SumPairs(x, y, PairsTo(T, PT, c), Nil) ELSE Nil],
          LAMBDA v : v # Nil))
=============================================================================
