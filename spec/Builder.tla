------------------------------- MODULE Builder -------------------------------
(***************************************************************************)
(* Descriptions of networks (C21).  A part that is not given is << >>.     *)
(***************************************************************************)
EXTENDS Integers, Sequences
Empty == [id |-> <<>>, n |-> <<>>, tcp |-> <<>>, port |-> <<>>, ips |-> <<>>, local |-> FALSE, logger |-> -2]
Is1(x) == x # <<>>
DefaultPort == 9876
\* Ports below 1024 are reserved; whether 1024 itself is accepted is not
\* specified.
PortOk(p) == IF p = 1024 THEN BOOLEAN ELSE {p >= 1025 /\ p <= 65535}

\* the possible answers to giving a part
IdOk(d, i) == i >= 0 /\ (Is1(d.n) => i < d.n[1])
SizeOk(d, n) == /\ n >= 0 /\ (Is1(d.id) => d.id[1] < n)
                /\ (Is1(d.ips) => Len(d.ips[1]) = n)
FileOk(d, lines) == lines # <<>> /\ (Is1(d.n) => Len(lines) = d.n[1])

\* the ports of the channels of a party
Base(d) == IF Is1(d.port) THEN d.port[1] ELSE DefaultPort
PortTo(d, j) == LET i == d.id[1] n == d.n[1] IN
                Base(d) + (IF j > i THEN i * n + j ELSE j * n + i)
Complete(d) == Is1(d.id) /\ Is1(d.n) /\ d.tcp = <<TRUE>> /\ (d.local \/ Is1(d.ips))
BuildOk(d) == /\ Complete(d)
              /\ d.id[1] \in 0..(d.n[1] - 1)
              /\ \A j \in 0..(d.n[1] - 1) : j # d.id[1] => PortTo(d, j) \in 1..65535
\* what is built: a channel for every party; to lower ones as a client of
\* their address
Channels(d) == [k \in 1..d.n[1] |->
   LET j == k - 1 IN
   IF j = d.id[1] THEN <<"local", "", 0>>
   ELSE IF j < d.id[1] THEN <<"client", IF d.local THEN "0.0.0.0" ELSE d.ips[1][k], PortTo(d, j)>>
   ELSE <<"server", "", PortTo(d, j)>>]
=============================================================================
