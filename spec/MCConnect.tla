----------------------------- MODULE MCConnect ------------------------------
(***************************************************************************)
(* N parties establish a network: party p opens its channels to 0 .. N-1   *)
(* one after the other; to lower parties it connects (again and again      *)
(* until somebody listens), for higher ones it listens, accepts one        *)
(* connection and stops listening.  When all its channels are open it may  *)
(* close them and start again, Cycles times.                               *)
(*   Order:   "up" everybody opens channels in ascending order (the code); *)
(*            "mixed" party 1 in descending order                          *)
(*   PortOf:  "pair" a port for every pair; "sum" the sum of the           *)
(*            identities                                                   *)
(*   Barrier: parties close only when everybody is connected               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Cycles, Order, PortOf, Barrier
P == 0..(N - 1)
VARIABLES pc,      \* per party: 100 * cycle + 10 * step + stage (1: listening, 2: all are open)
          pending, \* connections waiting at a listening party's port: sequence of << client, cycle >>
          est      \* established channels << cycle of client, client, cycle of server, server >>
vars == <<pc, pending, est>>

Cyc(p) == pc[p + 1] \div 100
Step(p) == (pc[p + 1] % 100) \div 10
Stage(p) == pc[p + 1] % 10
Peer(p) == IF Order = "mixed" /\ p = 1 THEN N - 1 - Step(p) ELSE Step(p)
Port(a, b) == IF PortOf = "pair" THEN a * N + b ELSE a + b        \* a < b
Listening(port) == {p \in P : Stage(p) = 1 /\ Port(p, Peer(p)) = port}
To(p, x) == pc' = [pc EXCEPT ![p + 1] = x]
Forward(p) == To(p, IF Step(p) = N - 1 THEN 100 * Cyc(p) + 2 ELSE 100 * Cyc(p) + 10 * (Step(p) + 1))

Init == pc = [i \in 1..N |-> 100] /\ pending = [p \in P |-> <<>>] /\ est = {}

Opening(p) == Stage(p) = 0 /\ Cyc(p) <= Cycles
Self(p) == Opening(p) /\ Peer(p) = p /\ Forward(p) /\ UNCHANGED <<pending, est>>
Connect(p) == /\ Opening(p) /\ Peer(p) < p
              /\ \E s \in Listening(Port(Peer(p), p)) :
                 /\ Len(pending[s]) < 2
                 /\ pending' = [pending EXCEPT ![s] = Append(@, <<p, Cyc(p)>>)]
              /\ Forward(p) /\ UNCHANGED est
Listen(p) == /\ Opening(p) /\ Peer(p) > p /\ Listening(Port(p, Peer(p))) = {}
             /\ To(p, pc[p + 1] + 1) /\ UNCHANGED <<pending, est>>
\* the listener closes with the connections that still wait there
Accept(p) == /\ Stage(p) = 1 /\ pending[p] # <<>>
             /\ est' = est \cup {<<Head(pending[p])[2], Head(pending[p])[1], Cyc(p), p, Peer(p)>>}
             /\ pending' = [pending EXCEPT ![p] = <<>>]
             /\ IF Step(p) = N - 1 THEN To(p, 100 * Cyc(p) + 2) ELSE To(p, 100 * Cyc(p) + 10 * (Step(p) + 1))
Again(p) == /\ Stage(p) = 2
            /\ Barrier => \A q \in P : Cyc(q) > Cyc(p) \/ (Cyc(q) = Cyc(p) /\ Stage(q) = 2)
            /\ To(p, 100 * (Cyc(p) + 1)) /\ UNCHANGED <<pending, est>>

AllDone == \A p \in P : Cyc(p) > Cycles
Next == \/ \E p \in P : Self(p) \/ Connect(p) \/ Listen(p) \/ Accept(p) \/ Again(p)
        \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* who a server takes for its peer is its peer, and in the same cycle
Paired == \A x \in est : x[1] = x[3] /\ x[2] = x[5]
OncePerCycle == \A x, y \in est : (x[1] = y[1] /\ x[2] = y[2] /\ x[4] = y[4]) => x = y
Complete == \A c \in 1..Cycles : (\A p \in P : Cyc(p) > c \/ (Cyc(p) = c /\ Stage(p) = 2)) =>
              \A a, b \in P : a < b => \E x \in est : x[1] = c /\ x[2] = b /\ x[4] = a
Terminates == <>AllDone
ASSUME \A m \in 1..16 : \A a, b, c, d \in 0..(m - 1) : (a < b /\ c < d /\ a * m + b = c * m + d) => (a = c /\ b = d)
=============================================================================
