------------------------------ MODULE MCDeque -------------------------------
(***************************************************************************)
(* The shared queue at the granularity of its synchronisation: a mutex     *)
(* around a deque, a condition on which Front and PopFront wait, signalled *)
(* after an insertion has released the mutex.  Threads run the programs    *)
(* Prog; items are numbers.  Wait = "while": the condition is looked at    *)
(* again after waking up; Notify = "one": every insertion signals.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Prog, Wait, Notify, Spurious
ASSUME Prog \in {1, 2, 3, 4}

P(v) == <<"push", v>>
F == <<"front", 0>>
X == <<"pop", 0>>
S == <<"size", 0>>
Programs ==
  CASE Prog = 1 -> << <<P(1), P(2)>>, <<F, X, F, X>>, <<S, S>> >>
    [] Prog = 2 -> << <<P(1), P(2)>>, <<X>>, <<X>> >>
    [] Prog = 3 -> << <<P(1)>>, <<P(2)>>, <<F, X, F, X>> >>
    [] Prog = 4 -> << <<P(1), P(2), P(3)>>, <<X>>, <<F, F>> >>
Threads == 1..Len(Programs)

VARIABLES pc,       \* 10 * (number of the operation) + phase
          q, owner, waiters,
          put, taken,    \* ghosts: items inserted, items removed
          bad            \* a removal or look at the front of an empty queue
vars == <<pc, q, owner, waiters, put, taken, bad>>

OpOf(t) == (pc[t] \div 10) + 1
Phase(t) == pc[t] - 10 * (pc[t] \div 10)
Finished(t) == OpOf(t) > Len(Programs[t])
Op(t) == Programs[t][OpOf(t)]
Go(t, ph) == pc' = [pc EXCEPT ![t] = 10 * (pc[t] \div 10) + ph]
NextOp(t) == pc' = [pc EXCEPT ![t] = 10 * (pc[t] \div 10) + 10]

Init == /\ pc = [t \in Threads |-> 0] /\ q = <<>> /\ owner = 0 /\ waiters = {}
        /\ put = <<>> /\ taken = <<>> /\ bad = FALSE

Acquire(t) == /\ ~Finished(t) /\ Phase(t) = 0 /\ owner = 0
              /\ owner' = t /\ Go(t, 1)
              /\ UNCHANGED <<q, waiters, put, taken, bad>>

Take(t) == /\ bad' = (bad \/ q = <<>>)
           /\ IF Op(t)[1] = "pop" /\ q # <<>>
              THEN q' = Tail(q) /\ taken' = Append(taken, Head(q))
              ELSE UNCHANGED <<q, taken>>
           /\ owner' = 0 /\ NextOp(t)
           /\ UNCHANGED <<waiters, put>>
\* inside of the critical section, up to its end
Inside(t) ==
  /\ ~Finished(t) /\ Phase(t) = 1 /\ owner = t
  /\ CASE Op(t)[1] = "push" ->
            /\ q' = Append(q, Op(t)[2]) /\ put' = Append(put, Op(t)[2])
            /\ owner' = 0 /\ Go(t, 2)
            /\ UNCHANGED <<waiters, taken, bad>>
       [] Op(t)[1] \in {"front", "pop"} /\ q = <<>> ->
            /\ owner' = 0 /\ waiters' = waiters \cup {t} /\ Go(t, 3)
            /\ UNCHANGED <<q, put, taken, bad>>
       [] Op(t)[1] \in {"front", "pop"} /\ q # <<>> -> Take(t)
       [] Op(t)[1] = "size" -> owner' = 0 /\ NextOp(t) /\ UNCHANGED <<q, waiters, put, taken, bad>>

Signal(t) == /\ ~Finished(t) /\ Phase(t) = 2
             /\ CASE Notify = "none" \/ waiters = {} -> UNCHANGED waiters
                  [] Notify = "one" /\ waiters # {} -> \E w \in waiters : waiters' = waiters \ {w}
                  [] Notify = "empty" /\ waiters # {} ->    \* only if the queue was empty before
                       IF Len(q) = 1 THEN \E w \in waiters : waiters' = waiters \ {w} ELSE UNCHANGED waiters
             /\ NextOp(t)
             /\ UNCHANGED <<q, owner, put, taken, bad>>

\* a waiting thread that was signalled (or not: spurious wakeup) takes the mutex
Woken(t) == /\ ~Finished(t) /\ Phase(t) = 3 /\ owner = 0
            /\ t \notin waiters \/ Spurious
            /\ waiters' = waiters \ {t} /\ owner' = t
            /\ Go(t, IF Wait = "while" THEN 1 ELSE 4)
            /\ UNCHANGED <<q, put, taken, bad>>
Unchecked(t) == ~Finished(t) /\ Phase(t) = 4 /\ owner = t /\ Take(t)

AllDone == \A t \in Threads : Finished(t)
Next == \/ \E t \in Threads : Acquire(t) \/ Inside(t) \/ Signal(t) \/ Woken(t) \/ Unchecked(t)
        \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

NeverEmpty == ~bad
Fifo == put = taken \o q
Exclusive == \A t \in Threads : ~Finished(t) /\ Phase(t) \in {1, 4} => owner = t
\* nobody waits unsignalled while there is something to take and nobody is
\* about to signal
NoLostWakeup ==
  (owner = 0 /\ ~AllDone /\ (\A t \in Threads : ~Finished(t) => Phase(t) = 3 /\ t \in waiters)) => q = <<>>
=============================================================================
