------------------------------ MODULE MCCheck ------------------------------
(***************************************************************************)
(* The check phase between N parties with threshold D0: every interleaving *)
(* of the exchange.  Component c of the combined degree-2D message of      *)
(* party u is written <<u, c>>.  A stream carries lists, each preceded by  *)
(* its length; sending and receiving the length and the list are separate  *)
(* steps.  Variant "hash": the second holder sends the value, too.         *)
(***************************************************************************)
EXTENDS RssTab, TLC
CONSTANTS N, D0, Variant
D == TLCEval(Table(N, 2 * D0))
P == 0..(N-1)
U == [u \in 1..(2 * D0 + 1) |-> u - 1]

IsValue(i, c) == D.first[c] = i \/ (Variant = "hash" /\ Len(D.sets[c]) > 1 /\ D.sets[c][2] = i)
Values(i, j)  == FlattenSeq([k \in 1..D.size |->
  LET c == D.idx[i][k] IN IF j \notin D.hold[c] /\ IsValue(i, c) THEN [u \in 1..Len(U) |-> <<U[u], c>>] ELSE <<>>])
Digests(i, j) == FlattenSeq([k \in 1..D.size |->
  LET c == D.idx[i][k] IN IF j \notin D.hold[c] /\ ~IsValue(i, c) THEN << <<i, c>> >> ELSE <<>>])
Msg == TLCEval([x \in P \X P |-> <<Values(x[1], x[2]), Digests(x[1], x[2])>>])

VARIABLES pc,      \* steps done: 4N sends, then 4N receives
          chan,    \* << i, j >> -> units: [len] or [unit]
          want,    \* length last read
          got      \* << i, j >> -> lists received
vars == <<pc, chan, want, got>>
Init == /\ pc = [p \in P |-> 0] /\ chan = [x \in P \X P |-> <<>>]
        /\ want = [p \in P |-> 0] /\ got = [x \in P \X P |-> <<>>]
Peer(k) == (k % (4 * N)) \div 4
Part(k) == (k % 4) \div 2 + 1            \* values, then digests
IsLen(k) == k % 2 = 0
SendStep(p) ==
  LET k == pc[p] x == <<p, Peer(pc[p])>> list == Msg[x][Part(k)] IN
  /\ k < 4 * N
  /\ chan' = [chan EXCEPT ![x] = @ \o (IF IsLen(k) THEN << [len |-> Len(list)] >>
                                       ELSE [a \in 1..Len(list) |-> [unit |-> list[a]]])]
  /\ UNCHANGED <<want, got>>
RecvStep(p) ==
  LET k == pc[p] x == <<Peer(pc[p]), p>> m == IF IsLen(pc[p]) THEN 1 ELSE want[p] IN
  /\ 4 * N <= k /\ k < 8 * N
  /\ Len(chan[x]) >= m
  /\ chan' = [chan EXCEPT ![x] = SubSeq(@, m + 1, Len(@))]
  /\ IF IsLen(k) THEN want' = [want EXCEPT ![p] = chan[x][1].len] /\ UNCHANGED got
     ELSE got' = [got EXCEPT ![x] = Append(@, [a \in 1..m |-> chan[x][a].unit])] /\ UNCHANGED want
Step(p) == pc' = [pc EXCEPT ![p] = @ + 1] /\ (SendStep(p) \/ RecvStep(p))
Finished == \A p \in P : pc[p] = 8 * N
Next == (\E p \in P : Step(p)) \/ (Finished /\ UNCHANGED vars)

Empty == Finished => \A x \in DOMAIN chan : chan[x] = <<>>
Progress == Finished \/ \E p \in P : ENABLED Step(p)
Elements(seq) == {seq[a] : a \in 1..Len(seq)}
\* Everything a party lacks arrives once, from the first holder, with a digest
\* from every other holder, and nothing that it has.
Lacks(p) == {c \in 1..D.comps : p \notin D.hold[c]}
EveryoneKnows == Finished => \A p \in P :
  /\ \A i \in P : Len(got[<<i, p>>]) = 2
  /\ \A c \in Lacks(p) : \A u \in Elements(U) : \A i \in P :
       Len(SelectSeq(got[<<i, p>>][1], LAMBDA v : v = <<u, c>>)) = (IF i = D.first[c] THEN 1 ELSE 0)
  /\ \A c \in Lacks(p) : \A i \in P :
       Len(SelectSeq(got[<<i, p>>][2], LAMBDA v : v[2] = c)) = (IF i \in D.hold[c] /\ i # D.first[c] THEN 1 ELSE 0)
  /\ \A i \in P : \A b \in 1..2 : \A v \in Elements(got[<<i, p>>][b]) : v[2] \in Lacks(p)
=============================================================================
