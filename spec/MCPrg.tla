------------------------------- MODULE MCPrg -------------------------------
(* Two generators, blocks of 2 bytes, counters in base 2: every sequence of *)
(* requests.  out holds what an object has returned since it was created,   *)
(* reset or copied, as << seed, byte position in the stream >>.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxOut
enc(s, c) == << <<s, 2 * (c[1] * 2 + c[2])>>, <<s, 2 * (c[1] * 2 + c[2]) + 1>> >>
VARIABLES objs, out, from
vars == <<objs, out, from>>
start == <<0, 0>>
INSTANCE Prg WITH BS <- 2, Base <- 2, Enc <- enc, Start <- start
Ids == {"a", "b"}
Num(c) == c[1] * 2 + c[2]
Init == /\ objs = [o \in Ids |-> [seed |-> "s", ctr |-> start]]
        /\ out = [o \in Ids |-> <<>>] /\ from = [o \in Ids |-> 0]
Request(o, k) == /\ Len(out[o]) + k <= MaxOut
                 /\ out' = [out EXCEPT ![o] = @ \o Bytes(objs[o], k)]
                 /\ Take(o, k) /\ UNCHANGED from
Clone(o, p) == /\ Copy(o, p) /\ out' = [out EXCEPT ![o] = <<>>]
               /\ from' = [from EXCEPT ![o] = Num(objs[p].ctr)]
               /\ Num(objs[p].ctr) < 8
Again(o) == /\ Reset(o) /\ out' = [out EXCEPT ![o] = <<>>] /\ from' = [from EXCEPT ![o] = 0]
Next == \E o \in Ids : \/ \E k \in 0..5 : Request(o, k)
                       \/ \E p \in Ids \ {o} : Clone(o, p)
                       \/ Again(o)
                       \/ (Refuse(o) /\ UNCHANGED <<out, from>>)
\* No byte of the stream is returned twice, bytes come in stream order, at or
\* after the starting point, and below the counter.
Ordered == \A o \in Ids : \A i, j \in 1..Len(out[o]) :
             i < j => out[o][i][2] < out[o][j][2]
InRange == \A o \in Ids : \A i \in 1..Len(out[o]) :
             2 * from[o] <= out[o][i][2] /\ out[o][i][2] < 2 * Num(objs[o].ctr)
\* A new object starts at the beginning of the stream without a gap.
NoGap == \A o \in Ids : out[o] # <<>> => out[o][1][2] = 2 * from[o]
=============================================================================
