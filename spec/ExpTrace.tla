------------------------------ MODULE ExpTrace ------------------------------
(***************************************************************************)
(* Trace specification of the experiments (C25): whole runs with one       *)
(* process per party, and single processes with arguments that are         *)
(* supported or not.  Arguments beyond 10^9 are written as 10^9.           *)
(***************************************************************************)
EXTENDS TraceBase, Exp
vars == <<l>>
Init == l = 1

\* every party exits normally and reports what its role prescribes
Run == /\ Is("run")
       /\ \E e \in {Ev} :
          /\ Len(e.p) = e.n
          /\ Holds(\A i \in 0..(e.n - 1) : LET r == e.p[i + 1] IN
               /\ r.rc = 0 /\ r.id = i /\ Len(r.sent) = e.n /\ Len(r.recv) = e.n
               /\ \A j \in 0..(e.n - 1) : /\ r.sent[j + 1] \in Bytes(e.x, e.n, e.m, i, j)
                                          /\ r.recv[j + 1] \in Bytes(e.x, e.n, e.m, j, i))
          \* what one reports as sent the other one reports as received
          /\ Holds(\A i, j \in 1..e.n : e.p[i].sent[j] = e.p[j].recv[i])

Good(e) == Supported(e.n) /\ e.id < e.n /\ e.m < Limit(e.x)
\* one process on its own: it is refused, or waits for the others
Alone == /\ Is("alone")
         /\ Ev.outcome = (IF Good(Ev) THEN "runs" ELSE "refused")

Next == Run \/ Alone \/ End
View == l
=============================================================================
