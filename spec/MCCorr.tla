------------------------------- MODULE MCCorr -------------------------------
(***************************************************************************)
(* Correlated randomness between N parties with threshold D0.  Every party *)
(* 0..2D has dealt a replicated key; component c of key i seeds a          *)
(* generator whose k-th output is written <<i, c, k>> (outputs are never   *)
(* computed with, only added, so a sum is the set of its terms).  Parties  *)
(* call at any time and in any order; dummy calls do not touch the         *)
(* generators.  Variant "shared": key owners and receivers use one         *)
(* generator for two purposes, which the invariants have to find.          *)
(***************************************************************************)
EXTENDS RssTab, TLC
CONSTANTS N, D0, Calls, Variant
T == TLCEval(Table(N, D0))
U == 0..(2 * D0)
P == 0..(N-1)

VARIABLES pos,     \* << party, key, component >> -> outputs taken by this party's copy
          own,     \* << party, component >> -> outputs taken from its own key's generators
          got      \* party -> results of its calls
vars == <<pos, own, got>>

Init == /\ pos = [x \in {<<p, i, j>> : p \in P, i \in U, j \in 1..T.size} |-> 0]
        /\ own = [x \in U \X (1..T.comps) |-> 0]
        /\ got = [p \in P |-> <<>>]
Call(p) ==
  /\ Len(got[p]) < Calls
  /\ own' = [x \in DOMAIN own |-> IF x[1] = p THEN own[x] + 1 ELSE own[x]]
  /\ pos' = [x \in DOMAIN pos |-> IF x[1] = p THEN pos[x] + (IF Variant = "shared" /\ x[2] = p THEN 2 ELSE 1) ELSE pos[x]]
  /\ got' = [got EXCEPT ![p] = Append(@,
       [ add |-> IF p \in U THEN {<<p, c, own'[<<p, c>>]>> : c \in 1..T.comps} ELSE {},
         rep |-> [i \in U |-> [j \in 1..T.size |-> {<<i, T.idx[p][j], pos'[<<p, i, j>>]>>}]],
         sh  |-> [j \in 1..T.size |-> {<<i, T.idx[p][j], pos'[<<p, i, j>>]>> : i \in U}] ])]
DummyCall(p) == UNCHANGED vars
Next == \E p \in P : Call(p) \/ DummyCall(p)

\* Result k is complete when every party made its call.
Complete(k) == \A p \in P : Len(got[p]) >= k
Agree(F(_)) == \* F(p): the sequence of p's components
  \A p \in P : \A q \in P : \A a \in 1..T.size : \A b \in 1..T.size :
    T.idx[p][a] = T.idx[q][b] => F(p)[a] = F(q)[b]
Sum(F(_)) == UNION {F(T.first[c])[T.fpos[c]] : c \in 1..T.comps}
Matches == \A k \in 1..Calls : Complete(k) =>
  /\ Agree(LAMBDA p : got[p][k].sh)
  /\ \A i \in U : /\ Agree(LAMBDA p : got[p][k].rep[i])
                  /\ Sum(LAMBDA p : got[p][k].rep[i]) = got[i][k].add
  /\ Sum(LAMBDA p : got[p][k].sh) = UNION {got[i][k].add : i \in U}
  /\ \A p \in P \ U : got[p][k].add = {}
Fresh == \A p \in U : \A k \in 1..Len(got[p]) : \A m \in 1..(k-1) :
  got[p][k].add \cap got[p][m].add = {}
=============================================================================
