------------------------------- MODULE MCMult -------------------------------
(***************************************************************************)
(* The multiplication protocol between N parties with threshold D0 over    *)
(* Z_Q: every interleaving of the parties' communication steps, for a      *)
(* series of batches and several assignments of the randomness.            *)
(*                                                                         *)
(* The parties 0..2D mask their additive product shares and send them to   *)
(* party 0, which adds them up and sends the sums to the parties below     *)
(* N-D; everybody adds the sum to the share of the mask.                   *)
(* Variant: "ok", or a fault the invariants have to find:                  *)
(*   "keep"   batches are not cleared,                                     *)
(*   "remask" all multiplications of a batch use the batch's first mask.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Q, N, D0, Batches, Samples, Variant

Z == 0..(Q-1)
plus(a, b)  == (a + b) % Q
minus(a, b) == (a + Q - b) % Q
times(a, b) == (a * b) % Q
sumof(s)    == FoldLeft(plus, 0, s)
isval(v)    == v \in Z
INSTANCE Rss WITH Plus <- plus, Minus <- minus, Times <- times,
                  SumOf <- sumof, Nil <- 0, IsVal <- isval

T  == TLCEval(Table(N, D0))
D  == TLCEval(Table(N, 2 * D0))
PT == TLCEval(PairTable(T, D))
U  == 0..(2 * D0)
R  == 0..(N - D0 - 1)
B21 == <<2, 1>>
B102 == <<1, 0, 2>>
Total == FoldLeft(LAMBDA a, x : a + x, 0, Batches)
Start(b) == FoldLeft(LAMBDA a, x : a + x, 0, SubSeq(Batches, 1, b - 1))
Ids(b) == [k \in 1..Batches[b] |-> Start(b) + k]

\* Pseudorandom elements of Z_Q: sample s, stream m, position c.
Rnd(s, m, c) == (((s * 7919 + m * 613 + c * 127 + s * m * 31 + s * c * 17 + m * c * 5) % 1009) * 37 % 101) % Q
Comps(s, m) == EagerSeq(T.comps, LAMBDA c : Rnd(s, m, c))
\* data[s]: for every multiplication its factors and the additive masks' components
Data == TLCEval(EagerFcn(1..Samples, LAMBDA s :
  [k \in 1..Total |->
    With(Comps(s, 50 + k), LAMBDA x :
    With(Comps(s, 80 + k), LAMBDA y :
    With([i \in U |-> Comps(s, 100 + 10 * k + i)], LAMBDA m :
      [ x |-> sumof(x), y |-> sumof(y),
        prod |-> [p \in Parties(T) |-> AdditiveProduct(T, D, PT, x, y, p)],
        mask |-> [i \in U |-> sumof(m[i])],
        r    |-> Deal(T, EagerSeq(T.comps, LAMBDA c : sumof([i \in 1..(2 * D0 + 1) |-> m[i-1][c]]))) ])))]))

VARIABLES s,      \* the sample
          pc,     \* party -> communication steps done
          chan,   \* << i, j >> -> elements on the way
          mem,    \* party 0: shares received, << i, batch >> -> elements
          out     \* party -> output shares
vars == <<s, pc, chan, mem, out>>

\* The communication steps of a party, batch after batch.
Steps(p) == FlattenSeq([b \in 1..Len(Batches) |->
       (IF p \in U THEN << [op |-> "share", b |-> b, o |-> 0] >> ELSE <<>>)
    \o (IF p = 0 THEN [i \in 1..(2 * D0 + 1) |-> [op |-> "collect", b |-> b, o |-> i - 1]]
                      \o [j \in 1..(N - D0) |-> [op |-> "sum", b |-> b, o |-> j - 1]] ELSE <<>>)
    \o (IF p \in R THEN << [op |-> "result", b |-> b, o |-> 0] >> ELSE <<>>)])
Prog == TLCEval([p \in 0..(N-1) |-> Steps(p)])

MaskId(k, b) == IF Variant = "remask" THEN Start(b) + 1 ELSE k
Mask(p, k, b) == Data[s][MaskId(k, b)].mask[p]
MaskShare(p, k, b) == Data[s][MaskId(k, b)].r[p]
\* What is being multiplied in batch b.
Now(b) == IF Variant = "keep" THEN [k \in 1..(Start(b) + Batches[b]) |-> k] ELSE Ids(b)

Masked(p, b) == EagerSeq(Len(Now(b)), LAMBDA k :
                  minus(Data[s][Now(b)[k]].prod[p], Mask(p, Now(b)[k], b)))
Sums(b) == [k \in 1..Batches[b] |-> sumof([i \in 1..(2 * D0 + 1) |-> mem[<<i - 1, b>>][k]])]
Result(p, b, v) == EagerSeq(Batches[b], LAMBDA k :
                     LET r == MaskShare(p, Now(b)[k], b)
                     IN IF T.idx[p][1] = 1 THEN [r EXCEPT ![1] = plus(@, v[k])] ELSE r)

Init == /\ s \in 1..Samples
        /\ pc = [p \in 0..(N-1) |-> 0]
        /\ chan = [x \in (0..(N-1)) \X (0..(N-1)) |-> <<>>]
        /\ mem = <<>>
        /\ out = [p \in 0..(N-1) |-> <<>>]

Put(i, j, u) == chan' = [chan EXCEPT ![<<i, j>>] = @ \o u]
\* n elements from the stream, if they are there
Get(i, j, m) == /\ Len(chan[<<i, j>>]) >= m
                /\ chan' = [chan EXCEPT ![<<i, j>>] = SubSeq(@, m + 1, Len(@))]
First(i, j, m) == SubSeq(chan[<<i, j>>], 1, m)

\* Parties that receive nothing output the mask's share after each batch; they
\* have no step of their own, so their output is computed where it is needed.
Step(p) ==
  /\ pc[p] < Len(Prog[p])
  /\ pc' = [pc EXCEPT ![p] = @ + 1]
  /\ UNCHANGED s
  /\ LET a == Prog[p][pc[p] + 1] IN
     \/ /\ a.op = "share" /\ Put(p, 0, Masked(p, a.b)) /\ UNCHANGED <<mem, out>>
     \/ /\ a.op = "collect" /\ Get(a.o, 0, Batches[a.b])
        /\ mem' = (<<a.o, a.b>> :> First(a.o, 0, Batches[a.b])) @@ mem /\ UNCHANGED out
     \/ /\ a.op = "sum" /\ Put(0, a.o, Sums(a.b)) /\ UNCHANGED <<mem, out>>
     \/ /\ a.op = "result" /\ Get(0, p, Batches[a.b])
        /\ out' = [out EXCEPT ![p] = @ \o Result(p, a.b, First(0, p, Batches[a.b]))]
        /\ UNCHANGED mem
Finished == \A p \in 0..(N-1) : pc[p] = Len(Prog[p])
Next == (\E p \in 0..(N-1) : Step(p)) \/ (Finished /\ UNCHANGED vars)

---------------------------------------------------------------------------
\* Parties outside R hold their share of the mask (component 1 is not theirs).
Outside(p) == FlattenSeq([b \in 1..Len(Batches) |-> Result(p, b, [k \in 1..Batches[b] |-> 0])])
OutOf(p) == IF p \in R THEN out[p] ELSE Outside(p)
Correct == Finished =>
  \A k \in 1..Total : IsSharingOf(T, [p \in 0..(N-1) |-> OutOf(p)[k]], times(Data[s][k].x, Data[s][k].y))
\* Party 0 only ever gets product shares minus a mask used for nothing else.
OnlyMasked == \A i \in U : \A b \in 1..Len(Batches) :
  <<i, b>> \in DOMAIN mem => \A k \in 1..Batches[b] :
     mem[<<i, b>>][k] = minus(Data[s][Start(b) + k].prod[i], Data[s][Start(b) + k].mask[i])
\* Nothing is left on any stream.
Empty == Finished => \A x \in DOMAIN chan : chan[x] = <<>>
\* A party never waits for ever: some party can move until all are finished.
Progress == Finished \/ \E p \in 0..(N-1) : ENABLED Step(p)
=============================================================================
