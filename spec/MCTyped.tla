------------------------------ MODULE MCTyped -------------------------------
(***************************************************************************)
(* Typed messages over byte streams between N parties: sending appends the *)
(* bytes of the elements, receiving k elements takes the bytes of k        *)
(* elements, however they were grouped when they were sent.  Every party   *)
(* counts what it sends to and receives from each party.  An element has   *)
(* E bytes, a share S elements.                                            *)
(*   Count: "bytes" (the code); "items" a share counts as one element;     *)
(*          "once" a broadcast is counted for its first receiver only      *)
(*   Size:  "full"; "single" receiving shares takes one element for each   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, E, S, Ops, Count, Size
P == 0..(N - 1)
VARIABLES wire,        \* per << from, to >>: bytes << element number, byte >>
          next,        \* per << from, to >>: elements sent
          got,         \* per << from, to >>: elements received, in order
          plan,        \* per << from, to >>: what is to be received: sequence of "v" and "s"
          sent, rcvd,  \* counters
          left         \* operations left
vars == <<wire, next, got, plan, sent, rcvd, left>>
PP == P \X P
Init == /\ wire = [x \in PP |-> <<>>] /\ next = [x \in PP |-> 0] /\ got = [x \in PP |-> <<>>]
        /\ plan = [x \in PP |-> <<>>] /\ sent = [x \in PP |-> 0] /\ rcvd = [x \in PP |-> 0] /\ left = Ops
RECURSIVE Bytes(_, _)
Bytes(e, k) == IF k = 0 THEN <<>> ELSE [b \in 1..E |-> <<e, b>>] \o Bytes(e + 1, k - 1)
Elems(t) == IF t = "s" THEN S ELSE 1
RECURSIVE Rep(_, _)
Rep(t, k) == IF k = 0 THEN <<>> ELSE <<t>> \o Rep(t, k - 1)
Counted(t, k) == E * k * (IF Count = "items" THEN 1 ELSE Elems(t))

Send(p, t, k, to) ==
  /\ left > 0 /\ left' = left - 1
  /\ wire' = [x \in PP |-> IF x[1] = p /\ x[2] \in to THEN wire[x] \o Bytes(next[x], k * Elems(t)) ELSE wire[x]]
  /\ next' = [x \in PP |-> IF x[1] = p /\ x[2] \in to THEN next[x] + k * Elems(t) ELSE next[x]]
  /\ plan' = [x \in PP |-> IF x[1] = p /\ x[2] \in to THEN plan[x] \o Rep(t, k) ELSE plan[x]]
  /\ sent' = [x \in PP |-> IF x[1] = p /\ x[2] \in to /\ (Count = "once" => x[2] = CHOOSE q \in to : \A r \in to : q <= r)
                           THEN sent[x] + Counted(t, k) ELSE sent[x]]
  /\ UNCHANGED <<got, rcvd>>
\* the receiver takes the next k things of one type
Recv(p, from, k) ==
  LET x == <<from, p>> IN
  /\ k <= Len(plan[x]) /\ \A i \in 1..k : plan[x][i] = plan[x][1]
  /\ LET t == plan[x][1]
         m == E * k * (IF Size = "single" THEN 1 ELSE Elems(t)) IN
     /\ m <= Len(wire[x])
     /\ got' = [got EXCEPT ![x] = @ \o [i \in 1..(m \div E) |-> [b \in 1..E |-> wire[x][(i - 1) * E + b]]]]
     /\ wire' = [wire EXCEPT ![x] = SubSeq(@, m + 1, Len(@))]
     /\ plan' = [plan EXCEPT ![x] = SubSeq(@, k + 1, Len(@))]
     /\ rcvd' = [rcvd EXCEPT ![x] = @ + Counted(t, k)]
  /\ UNCHANGED <<next, sent, left>>
Next == \/ \E p \in P, t \in {"v", "s"}, k \in 0..2 : (\E q \in P : Send(p, t, k, {q})) \/ Send(p, t, k, P)
        \/ \E p \in P, q \in P, k \in 1..2 : Recv(p, q, k)
        \/ (left = 0 /\ (\A x \in PP : plan[x] = <<>>) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

\* elements arrive whole, once and in order
InOrder == \A x \in PP : \A i \in 1..Len(got[x]) : got[x][i] = [b \in 1..E |-> <<i - 1, b>>]
Owed == \A x \in PP : Len(got[x]) + Len(wire[x]) \div E = next[x]
\* the counters tell the bytes that were sent and received
Told == \A x \in PP : sent[x] = E * next[x] /\ rcvd[x] = E * Len(got[x])
AllTaken == \A x \in PP : plan[x] = <<>> => wire[x] = <<>>
=============================================================================
