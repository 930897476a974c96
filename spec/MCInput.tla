------------------------------ MODULE MCInput ------------------------------
(***************************************************************************)
(* Setup and input between N parties with threshold D0 over Z_Q, in every  *)
(* interleaving.  Setup: every party sends every party its share of its    *)
(* mask key (a component c of party i's key is written <<i, c>>; the k-th  *)
(* output of the generator it seeds is Out).  Input: the values minus the  *)
(* masks go to everybody, who adds them to its share of the mask.          *)
(* Variant "stuck": the mask generator is not advanced.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Q, N, D0, Counts, Samples, Variant

Z == 0..(Q-1)
plus(a, b)  == (a + b) % Q
minus(a, b) == (a + Q - b) % Q
times(a, b) == (a * b) % Q
sumof(s)    == FoldLeft(plus, 0, s)
isval(v)    == v \in Z
INSTANCE Rss WITH Plus <- plus, Minus <- minus, Times <- times,
                  SumOf <- sumof, Nil <- 0, IsVal <- isval
T == TLCEval(Table(N, D0))
P == 0..(N-1)
C2011 == <<2, 0, 1, 1>>
C201 == <<2, 0, 1>>

VARIABLES s, pc, chan, key, out
vars == <<s, pc, chan, key, out>>

Rnd(a, b, c) == (((s * 7919 + a * 613 + b * 127 + c * 331 + a * b * 31 + b * c * 17 + s * c * 5) % 1009) * 37 % 101) % Q
Secret(i, k) == Rnd(i, 77, k)
\* The k-th output of the generator seeded with component <<i, c>>.
Out(kc, k) == Rnd(kc[1], kc[2], IF Variant = "stuck" THEN 1 ELSE k)
Mask(i, k) == sumof([c \in 1..T.comps |-> Out(<<i, c>>, k)])

\* Steps: 1..N key shares sent, N+1..2N received, then the masked values.
Prog(p) == [j \in 1..N |-> [op |-> "sendkey", o |-> j - 1]]
        \o [j \in 1..N |-> [op |-> "recvkey", o |-> j - 1]]
        \o (IF Counts[p+1] > 0 THEN [j \in 1..N |-> [op |-> "send", o |-> j - 1]] ELSE <<>>)
        \o [j \in 1..N |-> [op |-> "recv", o |-> j - 1]]
Progs == TLCEval([p \in P |-> Prog(p)])

Init == /\ s \in 1..Samples /\ pc = [p \in P |-> 0]
        /\ chan = [x \in P \X P |-> <<>>]
        /\ key = [p \in P |-> [i \in P |-> <<>>]]
        /\ out = [p \in P |-> [i \in P |-> <<>>]]
Put(i, j, u) == chan' = [chan EXCEPT ![<<i, j>>] = @ \o u]
Get(i, j, m) == /\ Len(chan[<<i, j>>]) >= m
                /\ chan' = [chan EXCEPT ![<<i, j>>] = SubSeq(@, m + 1, Len(@))]
First(i, j, m) == SubSeq(chan[<<i, j>>], 1, m)
Shared(p, i, k, v) ==
  LET r == [j \in 1..T.size |-> Out(key[p][i][j], k)]
  IN IF T.idx[p][1] = 1 THEN [r EXCEPT ![1] = plus(@, v)] ELSE r
Step(p) ==
  /\ pc[p] < Len(Progs[p]) /\ pc' = [pc EXCEPT ![p] = @ + 1] /\ UNCHANGED s
  /\ LET a == Progs[p][pc[p] + 1] IN
     \/ /\ a.op = "sendkey"
        /\ Put(p, a.o, [j \in 1..T.size |-> <<p, T.idx[a.o][j]>>]) /\ UNCHANGED <<key, out>>
     \/ /\ a.op = "recvkey" /\ Get(a.o, p, T.size)
        /\ key' = [key EXCEPT ![p][a.o] = First(a.o, p, T.size)] /\ UNCHANGED out
     \/ /\ a.op = "send"
        /\ Put(p, a.o, [k \in 1..Counts[p+1] |-> minus(Secret(p, k), Mask(p, k))]) /\ UNCHANGED <<key, out>>
     \/ /\ a.op = "recv" /\ Get(a.o, p, Counts[a.o + 1])
        /\ out' = [out EXCEPT ![p][a.o] = [k \in 1..Counts[a.o + 1] |->
                      Shared(p, a.o, k, First(a.o, p, Counts[a.o + 1])[k])]]
        /\ UNCHANGED key
Finished == \A p \in P : pc[p] = Len(Progs[p])
Next == (\E p \in P : Step(p)) \/ (Finished /\ UNCHANGED vars)

Correct == Finished => \A i \in P : \A k \in 1..Counts[i+1] :
  IsSharingOf(T, [p \in P |-> out[p][i][k]], Secret(i, k))
Sizes == Finished => \A p \in P : \A i \in P : Len(out[p][i]) = Counts[i+1]
\* A party learns of a key nothing but its own share.
OwnShareOnly == \A p \in P : \A i \in P :
  key[p][i] = <<>> \/ key[p][i] = [j \in 1..T.size |-> <<i, T.idx[p][j]>>]
Empty == Finished => \A x \in DOMAIN chan : chan[x] = <<>>
Progress == Finished \/ \E p \in P : ENABLED Step(p)
=============================================================================
