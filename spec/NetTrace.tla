------------------------------ MODULE NetTrace ------------------------------
(***************************************************************************)
(* Trace specification for networks of n parties (C17, C20): every party   *)
(* connects, exchanges bytes and closes, any number of times on the same   *)
(* ports.  Bytes are given as positions << position, length >> in the      *)
(* stream from their sender.  Parties are 0 .. n-1.                        *)
(***************************************************************************)
EXTENDS TraceBase

VARIABLES n,      \* number of parties, 0 between sessions
          os,     \* "simulated": connections are reported; "real": they are not
          ph,     \* phase of each party
          cyc,    \* how many times it has started to connect
          conns,  \* connections established: << cycle, {a, b} >>
          ports,  \* << port, {a, b} >>
          sent, got,  \* bytes sent and received, by << from, to >>
          in      \* the call each party is in
vars == <<l, n, os, ph, cyc, conns, ports, sent, got, in>>
P == 0..(n - 1)
Init == /\ l = 1 /\ n = 0 /\ os = "none" /\ ph = <<>> /\ cyc = <<>> /\ conns = {} /\ ports = {}
        /\ sent = <<>> /\ got = <<>> /\ in = <<>>

Session == /\ Is("session") /\ n = 0
           /\ n' = Ev.n /\ os' = Ev.os
           /\ LET Q == 0..(Ev.n - 1) IN
              /\ ph' = [p \in Q |-> "off"] /\ cyc' = [p \in Q |-> 0] /\ in' = [p \in Q |-> "no"]
              /\ sent' = [x \in Q \X Q |-> 0] /\ got' = [x \in Q \X Q |-> 0]
           /\ conns' = {} /\ ports' = {}

Connecting == /\ Is("connecting") /\ ph[Ev.p] = "off"
              /\ ph' = [ph EXCEPT ![Ev.p] = "connecting"] /\ cyc' = [cyc EXCEPT ![Ev.p] = @ + 1]
              /\ UNCHANGED <<n, os, conns, ports, sent, got, in>>

\* A connection between two parties that are both connecting, one for each
\* pair, and no port belongs to two pairs.
Conn == /\ Is("conn")
        /\ LET a == Ev.a b == Ev.b IN
           /\ a # b /\ ph[a] = "connecting" /\ ph[b] = "connecting" /\ cyc[a] = cyc[b]
           /\ <<cyc[a], {a, b}>> \notin conns
           /\ \A x \in ports : x[1] = Ev.port => x[2] = {a, b}
           /\ Ev.port \in 1..65535
           /\ conns' = conns \cup {<<cyc[a], {a, b}>>} /\ ports' = ports \cup {<<Ev.port, {a, b}>>}
        /\ UNCHANGED <<n, os, ph, cyc, sent, got, in>>

Connected == /\ Is("connected") /\ ph[Ev.p] = "connecting"
             /\ Ev.id = Ev.p /\ Ev.size = n
             /\ os = "simulated" => \A q \in P \ {Ev.p} : <<cyc[Ev.p], {Ev.p, q}>> \in conns
             /\ ph' = [ph EXCEPT ![Ev.p] = "on"]
             /\ UNCHANGED <<n, os, cyc, conns, ports, sent, got, in>>

\* to = -1: to everybody
To(e) == IF e.to = -1 THEN P ELSE {e.to}
NSend == /\ Is("nsend") /\ ph[Ev.p] = "on" /\ in[Ev.p] = "no"
         /\ sent' = [x \in DOMAIN sent |-> IF x[1] = Ev.p /\ x[2] \in To(Ev) THEN sent[x] + Ev.k ELSE sent[x]]
         /\ in' = [in EXCEPT ![Ev.p] = "send"]
         /\ UNCHANGED <<n, os, ph, cyc, conns, ports, got>>
NSent == /\ Is("nsent") /\ in[Ev.p] = "send" /\ in' = [in EXCEPT ![Ev.p] = "no"]
         /\ UNCHANGED <<n, os, ph, cyc, conns, ports, sent, got>>
NRecving == /\ Is("nrecving") /\ ph[Ev.p] = "on" /\ in[Ev.p] = "no" /\ in' = [in EXCEPT ![Ev.p] = "recv"]
            /\ UNCHANGED <<n, os, ph, cyc, conns, ports, sent, got>>
\* The next k bytes of the stream from that party, and nothing else is written
\* to the buffer.
NRecv == /\ Is("nrecv") /\ in[Ev.p] = "recv"
         /\ LET x == <<Ev.from, Ev.p>> IN
            /\ Ev.u = (IF Ev.k = 0 THEN <<>> ELSE <<<<got[x], Ev.k>>>>)
            /\ got[x] + Ev.k <= sent[x] /\ Ev.past = 170
            /\ got' = [got EXCEPT ![x] = @ + Ev.k]
         /\ in' = [in EXCEPT ![Ev.p] = "no"]
         /\ UNCHANGED <<n, os, ph, cyc, conns, ports, sent>>

\* (The recorded parties close only when everybody is connected.)
Closing == /\ Is("closing") /\ ph[Ev.p] = "on" /\ in[Ev.p] = "no"
           /\ \A q \in P : cyc[q] > cyc[Ev.p] \/ (cyc[q] = cyc[Ev.p] /\ ph[q] # "connecting")
           /\ ph' = [ph EXCEPT ![Ev.p] = "closing"]
           /\ UNCHANGED <<n, os, cyc, conns, ports, sent, got, in>>
Closed == /\ Is("closed") /\ ph[Ev.p] = "closing" /\ Ev.fds = 0
          /\ ph' = [ph EXCEPT ![Ev.p] = "off"]
          /\ UNCHANGED <<n, os, cyc, conns, ports, sent, got, in>>

Fin == /\ Is("fin") /\ n # 0 /\ Ev.fds = 0
       /\ \A p \in P : ph[p] = "off" /\ cyc[p] = cyc[0] /\ cyc[p] > 0
       /\ got = sent
       /\ n' = 0 /\ UNCHANGED <<os, ph, cyc, conns, ports, sent, got, in>>

Next == \/ Session \/ Connecting \/ Conn \/ Connected \/ NSend \/ NSent \/ NRecving \/ NRecv \/ Closing \/ Closed \/ Fin
        \/ (n = 0 /\ End /\ UNCHANGED <<n, os, ph, cyc, conns, ports, sent, got, in>>)
View == l
=============================================================================
