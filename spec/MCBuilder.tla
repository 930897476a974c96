------------------------------ MODULE MCBuilder ------------------------------
(***************************************************************************)
(* Every description is given in every order: whether it is accepted (no   *)
(* part is refused and it can be built) and what is built depends only on  *)
(* the description.                                                        *)
(*   Forget = TRUE: the size is not compared with addresses given before   *)
(***************************************************************************)
EXTENDS Builder, FiniteSets, TLC
CONSTANT Forget
Ids == {99, 0, 1, 2}   \* 99: negative
Sizes == {1, 2, 3}
Ports == {80, 1025, 65532, 65536}
Files == {<<"a">>, <<"a", "b">>, <<"a", "b", "c">>, <<>>}
Val(i) == IF i = 99 THEN -1 ELSE i
VARIABLES given, left, d, refused
vars == <<given, left, d, refused>>
\* a part that is not given is << >>, one that is given <<value>>
Opt(S) == {<<>>} \cup {<<v>> : v \in S}
Init == /\ given \in [id : Opt(Ids), n : Opt(Sizes), tcp : Opt(BOOLEAN), port : Opt(Ports), ips : Opt(Files), local : Opt({TRUE})]
        /\ left = {k \in DOMAIN given : given[k] # <<>>}
        /\ d = Empty /\ refused = FALSE
Ok(k, v) == CASE k = "id" -> IdOk(d, Val(v))
              [] k = "n" -> IF Forget THEN SizeOk([d EXCEPT !.ips = <<>>], v) ELSE SizeOk(d, v)
              [] k = "port" -> v >= 1025 /\ v <= 65535
              [] k = "ips" -> FileOk(d, v)
              [] OTHER -> TRUE
Give(k) == /\ k \in left /\ left' = left \ {k}
           /\ LET v == given[k][1] IN
              IF Ok(k, v)
              THEN refused' = refused /\ d' = [d EXCEPT ![k] = IF k = "local" THEN TRUE ELSE IF k = "id" THEN <<Val(v)>> ELSE <<v>>]
              ELSE refused' = TRUE /\ d' = d
           /\ UNCHANGED given
Next == (\E k \in left : Give(k)) \/ (left = {} /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

G(k) == given[k] # <<>>
V(k) == given[k][1]
Consistent == /\ G("id") /\ G("n") /\ G("tcp") /\ V("tcp") = TRUE /\ (G("ips") \/ G("local"))
              /\ Val(V("id")) >= 0 /\ Val(V("id")) < V("n")
              /\ G("port") => V("port") \in 1025..65535
              /\ G("ips") => Len(V("ips")) = V("n")
              /\ \A j \in 0..(V("n") - 1) : j # V("id") =>
                   LET a == IF j < V("id") THEN j ELSE V("id") b == IF j < V("id") THEN V("id") ELSE j IN
                   (IF G("port") THEN V("port") ELSE DefaultPort) + a * V("n") + b <= 65535
AcceptedIffConsistent == left = {} => ((~refused /\ BuildOk(d)) <=> Consistent)
SameResult == left = {} /\ Consistent => d = [Empty EXCEPT !.id = <<V("id")>>, !.n = <<V("n")>>, !.tcp = <<TRUE>>,
   !.port = IF G("port") THEN <<V("port")>> ELSE <<>>, !.ips = IF G("ips") THEN <<V("ips")>> ELSE <<>>, !.local = G("local")]
\* the ports of a built pair are the same at both ends
ASSUME \A n \in 2..6 : \A i, j \in 0..(n - 1) : i # j =>
         LET D(x) == [Empty EXCEPT !.id = <<x>>, !.n = <<n>>] IN PortTo(D(i), j) = PortTo(D(j), i)
=============================================================================
