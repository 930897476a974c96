------------------------------- MODULE MCComb -------------------------------
(* The enumerator as a state machine: cur steps through the k-subsets of    *)
(* 0..m-1; each step goes to the least subset above the current one.  At    *)
(* the end every subset has been visited exactly once, in order, and the    *)
(* walk is Combs(m, k).                                                     *)
EXTENDS Comb, TLC
CONSTANT MaxM
VARIABLES m, k, visited, done
vars == <<m, k, visited, done>>
AllAsc == {s \in [1..k -> 0..(m-1)] : IsAscending(s)}
Init == /\ m \in 1..MaxM /\ k \in 0..m
        /\ visited = << [i \in 1..k |-> i - 1] >> /\ done = FALSE
Succs(c) == {s \in AllAsc : LexLess(c, s)}
Step == /\ ~done
        /\ LET c == Last(visited) S == Succs(c) IN
           IF S = {} THEN done' = TRUE /\ UNCHANGED visited
           ELSE /\ visited' = Append(visited, CHOOSE s \in S : \A u \in S : s = u \/ LexLess(s, u))
                /\ done' = FALSE
        /\ UNCHANGED <<m, k>>
Next == Step \/ (done /\ UNCHANGED vars)
WalkIsCombs == visited = SubSeq(Combs(m, k), 1, Len(visited))
EveryOnce == done => /\ SetOf(visited) = AllAsc
                     /\ Len(visited) = Cardinality(AllAsc)
                     /\ Len(visited) = Binomial(m, k)
                     /\ visited = Combs(m, k)
PositionsRight ==
  done => LET s == Last(visited) u == visited[(Len(visited) \div 2) + 1] IN
     /\ SetOf(InterPos(s, u)) = {i \in 0..(Len(s)-1) : s[i+1] \in SetOf(u)}
     /\ SetOf(DiffPos(s, u)) = (0..(Len(s)-1)) \ SetOf(InterPos(s, u))
     /\ IsAscending(InterPos(s, u)) /\ IsAscending(DiffPos(s, u))
=============================================================================
