----------------------------- MODULE DequeTrace -----------------------------
(***************************************************************************)
(* Trace specification for the shared queue (C22).  A history of calls and *)
(* returns by several threads is allowed iff it is linearizable with       *)
(* respect to a FIFO queue whose Front and PopFront wait for an item: each *)
(* call takes effect at one moment between its call and its return.        *)
(* State: all pairs of a queue content and, for every thread, the call it  *)
(* is in (idle, called, or taken effect with a result) that explain the    *)
(* history so far.                                                         *)
(***************************************************************************)
EXTENDS TraceBase

VARIABLES threads, configs
vars == <<l, threads, configs>>

Init == l = 1 /\ threads = 0 /\ configs = {}

Idle == [k |-> "idle", v |-> 0]
Called(op, v) == [k |-> op, v |-> v]
Took(r) == [k |-> "took", v |-> r]

\* the ways in which thread t's call can take effect now
Effect(c, t) ==
  LET p == c.th[t]
      To(q, r) == {[q |-> q, th |-> [c.th EXCEPT ![t] = Took(r)]]}
  IN  CASE p.k = "push" -> To(Append(c.q, p.v), 0)
        [] p.k = "front" -> IF c.q = <<>> THEN {} ELSE To(c.q, Head(c.q))
        [] p.k = "pop" -> IF c.q = <<>> THEN {} ELSE To(Tail(c.q), 0)
        [] p.k = "size" -> To(c.q, Len(c.q))
        [] OTHER -> {}

\* what can be reached by calls of the other threads taking effect
RECURSIVE Closure(_, _, _)
Closure(t, new, all) ==
  IF new = {} THEN all
  ELSE LET more == UNION {UNION {Effect(c, u) : u \in DOMAIN c.th \ {t}} : c \in new}
       IN  Closure(t, more \ all, all \cup more)

\* It is enough to let calls take effect when one of them returns, in the order
\* in which that one is the last (if it has not taken effect before).
Returned(t, v) ==
  LET late == {c \in configs : c.th[t] # Took(v)}
      now  == UNION {Effect(c, t) : c \in Closure(t, late, late)}
  IN  {[c EXCEPT !.th[t] = Idle] : c \in {x \in configs \cup now : x.th[t] = Took(v)}}

Session == /\ Is("session") /\ threads = 0
           /\ threads' = Ev.threads
           /\ configs' = {[q |-> <<>>, th |-> [t \in 0..(Ev.threads - 1) |-> Idle]]}
Inv == /\ Is("inv") /\ Ev.t < threads
       /\ \A c \in configs : c.th[Ev.t] = Idle
       /\ configs' = {[c EXCEPT !.th[Ev.t] = Called(Ev.op, Ev.v)] : c \in configs}
       /\ UNCHANGED threads
Res == /\ Is("res") /\ Ev.t < threads
       /\ configs' = Returned(Ev.t, Ev.v)
       /\ configs' # {}
       /\ UNCHANGED threads
Fin == /\ Is("fin") /\ threads > 0
       /\ \E c \in configs : c.q = <<>> /\ \A t \in DOMAIN c.th : c.th[t] = Idle
       /\ threads' = 0 /\ configs' = {}

\* One thread and very many items 1, 2, ...: the queue is an interval.
Burst == /\ Is("burst") /\ threads = 0 /\ threads' = -1 /\ configs' = {[lo |-> 1, hi |-> 0]}
The(P(_)) == threads = -1 /\ \A c \in configs : P(c)
BPush == /\ Is("bpush") /\ threads = -1
         /\ configs' = {[c EXCEPT !.hi = @ + Ev.k] : c \in configs} /\ UNCHANGED threads
\* Ev.u: what the front was before each of the pops, as runs << first, length >>
BPop == /\ Is("bpop") /\ The(LAMBDA c : Ev.k > 0 /\ c.lo + Ev.k - 1 <= c.hi /\ Ev.u = <<<<c.lo, Ev.k>>>>)
        /\ configs' = {[c EXCEPT !.lo = @ + Ev.k] : c \in configs} /\ UNCHANGED threads
BSize == /\ Is("bsize") /\ The(LAMBDA c : Ev.v = c.hi - c.lo + 1) /\ UNCHANGED <<threads, configs>>
BFin == /\ Is("bfin") /\ The(LAMBDA c : c.hi = c.lo - 1) /\ threads' = 0 /\ configs' = {}

Next == \/ Session \/ Inv \/ Res \/ Fin
        \/ Burst \/ BPush \/ BPop \/ BSize \/ BFin
        \/ threads = 0 /\ End /\ UNCHANGED <<threads, configs>>
View == l
=============================================================================
