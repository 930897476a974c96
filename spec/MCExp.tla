------------------------------- MODULE MCExp --------------------------------
(***************************************************************************)
(* Whole experiments: every party opens its channels in ascending order,   *)
(* carries out its part of the protocol and closes, in any order of        *)
(* starting and with any speed.  Nobody waits for ever, nobody sends to a  *)
(* party that has gone or leaves without something that is meant for it,   *)
(* and what was sent is what Exp says.                                     *)
(*   Roles: "right"; "short" the first party sends the sums to one party   *)
(*          less than expect them; "greedy" one party more                 *)
(***************************************************************************)
EXTENDS Exp, TLC
CONSTANTS N, X, M, Roles
P == 0..(N - 1)
T == Threshold(N)
Back == CASE Roles = "right" -> N - T [] Roles = "short" -> N - T - 1 [] Roles = "greedy" -> N - T + 1

\* programs: <<"s", receivers, kind>> and <<"r", sender, kind>>
Units(k, i, j) == CASE k = "mul" -> Byte8 * M
                    [] k = "chk" -> CheckBytes(N, i, j)
                    [] k = "key" -> Byte8 * Choose(N - 1, T)
RecvAll(k) == [j \in 1..N |-> <<"r", {j - 1}, k>>]
MultProg(p) == (IF InU(N, p) THEN <<<<"s", {0}, "mul">>>> ELSE <<>>)
               \o (IF p = 0 THEN [i \in 1..(2 * T + 1) |-> <<"r", {i - 1}, "mul">>] \o <<<<"s", 0..(Back - 1), "mul">>>> ELSE <<>>)
               \o (IF InT(N, p) THEN <<<<"r", {0}, "mul">>>> ELSE <<>>)
Prog(p) == CASE X = "mult" -> MultProg(p)
             [] X = "check" -> MultProg(p) \o <<<<"s", P, "chk">>>> \o RecvAll("chk")
             [] X = "input" -> <<<<"s", P, "key">>>> \o RecvAll("key")
                               \o (IF p = 0 THEN <<<<"s", P, "mul">>>> ELSE <<>>) \o <<<<"r", {0}, "mul">>>>

VARIABLES pc,        \* 1..N opening, N+1.. program, then leaving, then gone
          lis,       \* parties that listen
          pending,   \* connections nobody has accepted yet: << server, client >>
          way,       \* bytes under way
          total      \* bytes sent
vars == <<pc, lis, pending, way, total>>
Init == pc = [p \in P |-> 1] /\ lis = {} /\ pending = {} /\ way = [x \in P \X P |-> 0] /\ total = [x \in P \X P |-> 0]
End(p) == N + Len(Prog(p)) + 1
Peer(p) == pc[p] - 1
Step(p) == pc' = [pc EXCEPT ![p] = @ + 1]
Opening(p) == pc[p] <= N
Self(p) == Opening(p) /\ Peer(p) = p /\ Step(p) /\ UNCHANGED <<lis, pending, way, total>>
Connect(p) == Opening(p) /\ Peer(p) < p /\ Peer(p) \in lis /\ Peer(Peer(p)) = p /\ <<Peer(p), p>> \notin pending
              /\ pending' = pending \cup {<<Peer(p), p>>} /\ Step(p) /\ UNCHANGED <<lis, way, total>>
Listen(p) == Opening(p) /\ Peer(p) > p /\ p \notin lis /\ lis' = lis \cup {p} /\ UNCHANGED <<pc, pending, way, total>>
Accept(p) == Opening(p) /\ p \in lis /\ <<p, Peer(p)>> \in pending
             /\ lis' = lis \ {p} /\ pending' = pending \ {<<p, Peer(p)>>} /\ Step(p) /\ UNCHANGED <<way, total>>
Now(p) == Prog(p)[pc[p] - N]
Running(p) == pc[p] > N /\ pc[p] < End(p)
Send(p) == /\ Running(p) /\ Now(p)[1] = "s"
           /\ LET plus(f) == [x \in P \X P |-> IF x[1] = p /\ x[2] \in Now(p)[2] THEN f[x] + Units(Now(p)[3], p, x[2]) ELSE f[x]] IN
              way' = plus(way) /\ total' = plus(total)
           /\ Step(p) /\ UNCHANGED <<lis, pending>>
Recv(p) == /\ Running(p) /\ Now(p)[1] = "r"
           /\ \E j \in Now(p)[2] : /\ way[<<j, p>>] >= Units(Now(p)[3], j, p)
                                   /\ way' = [way EXCEPT ![<<j, p>>] = @ - Units(Now(p)[3], j, p)]
           /\ Step(p) /\ UNCHANGED <<lis, pending, total>>
Leave(p) == pc[p] = End(p) /\ Step(p) /\ UNCHANGED <<lis, pending, way, total>>
Gone(p) == pc[p] > End(p)
AllGone == \A p \in P : Gone(p)
Next == (\E p \in P : Self(p) \/ Connect(p) \/ Listen(p) \/ Accept(p) \/ Send(p) \/ Recv(p) \/ Leave(p)) \/ (AllGone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Predicted == AllGone => \A i, j \in P : total[<<i, j>>] \in Bytes(X, N, M, i, j)
\* nothing is on its way to a party that left, and nothing is sent to it
NothingLost == \A p \in P : Gone(p) => \A i \in P : way[<<i, p>>] = 0
Finishes == <>AllGone
=============================================================================
