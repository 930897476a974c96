----------------------------- MODULE ChanTrace ------------------------------
(***************************************************************************)
(* Trace specification for channels (C17, C18).  In a session, channels    *)
(* over a recording transport ("async": the channel with a background      *)
(* sender; "base": the plain one), or over local connectors ("self": one   *)
(* connector of a party to itself; "pair": two with crossing buffers).     *)
(* Bytes are given as positions << position, length >> in the stream they  *)
(* belong to.  State per channel: phase, bytes passed to Send, bytes       *)
(* written to the transport, whether a write is under way, whether one has *)
(* failed, and bytes received.                                             *)
(***************************************************************************)
EXTENDS TraceBase

VARIABLES kind, ch
vars == <<l, kind, ch>>
New == [ph |-> "new", sent |-> 0, wr |-> 0, writing |-> FALSE, bad |-> FALSE, got |-> 0, in |-> "no"]
Init == l = 1 /\ kind = "none" /\ ch = <<>>

Mocked == kind \in {"async", "base"}
\* exactly the k bytes that follow position p
Exact(u, p, k) == u = (IF k = 0 THEN <<>> ELSE <<<<p, k>>>>)
C == ch[Ev.c]
Set(r) == ch' = [ch EXCEPT ![Ev.c] = r] /\ UNCHANGED kind
Source(c) == IF kind = "pair" THEN ch[1 - c] ELSE ch[c]

Session == /\ Is("session") /\ kind = "none"
           /\ kind' = Ev.kind /\ ch' = [c \in 0..(Ev.channels - 1) |-> New]

Opening == Is("opening") /\ C.ph \in {"new", "closed"} /\ Set([C EXCEPT !.ph = "opening"])
Estab == Is("estab") /\ Mocked /\ C.ph = "opening" /\ Set([C EXCEPT !.ph = "estab"])
Opened == /\ Is("opened") /\ C.ph = (IF Mocked THEN "estab" ELSE "opening")
          /\ Ev.state = 1
          /\ Set([C EXCEPT !.ph = "open"])

\* Send takes over the bytes, it does not wait for the transport.
CSend == /\ Is("csend") /\ C.ph = "open" /\ C.in = "no"
         /\ Set([C EXCEPT !.in = "send", !.sent = @ + Ev.k])
CSent == /\ Is("csent") /\ C.in = "send"
         /\ kind = "base" => C.wr = C.sent
         /\ Set([C EXCEPT !.in = "no"])
\* ... which may fail if the transport has
Threw == Is("threw") /\ Ev.op = "send" /\ C.in = "send" /\ C.bad /\ Set(C)

\* The transport is given the bytes in order, each once, by one writer at a
\* time, while the connection exists.
Live == C.ph \in {"estab", "open", "closing"}
WBeg == /\ Is("wbeg") /\ Mocked /\ Live /\ ~C.writing
        /\ Set([C EXCEPT !.writing = TRUE])
Total(u) == IF u = <<>> THEN 0 ELSE u[1][2]
Write == /\ Is("write") /\ Live /\ C.writing
         /\ IF Ev.ok
            THEN /\ Exact(Ev.u, C.wr, Total(Ev.u)) /\ C.wr + Total(Ev.u) <= C.sent
                 /\ Set([C EXCEPT !.wr = @ + Total(Ev.u), !.writing = FALSE])
            ELSE Set([C EXCEPT !.writing = FALSE, !.bad = TRUE])

Recving == Is("recving") /\ C.ph = "open" /\ C.in = "no" /\ Set([C EXCEPT !.in = "recv"])
\* The bytes received are the next ones of the stream; the buffer is not
\* written beyond the requested size.
CRecv == /\ Is("crecv") /\ C.in = "recv"
         /\ Exact(Ev.u, C.got, Ev.k)
         /\ Ev.past = 170
         /\ ~Mocked => C.got + Ev.k <= Source(Ev.c).sent
         /\ Set([C EXCEPT !.in = "no", !.got = @ + Ev.k])

Closing == Is("closing") /\ C.ph = "open" /\ C.in = "no" /\ Set([C EXCEPT !.ph = "closing"])
\* C18: nothing is torn down before everything is written, or has failed.
Teardown == /\ Is("teardown") /\ Mocked /\ C.ph = "closing"
            /\ ~C.writing /\ (C.bad \/ C.wr = C.sent)
            /\ Set([C EXCEPT !.ph = "torn"])
Closed == /\ Is("closed") /\ C.ph = (IF Mocked THEN "torn" ELSE "closing")
          /\ Ev.state = 2
          /\ Set([C EXCEPT !.ph = "closed"])

Fin == /\ Is("fin") /\ kind # "none"
       /\ \A c \in DOMAIN ch : /\ ch[c].ph = "closed"
                               /\ ~Mocked => Source(c).sent = ch[c].got
       /\ kind' = "none" /\ ch' = <<>>

Next == \/ Session \/ Opening \/ Estab \/ Opened \/ CSend \/ CSent \/ Threw \/ WBeg \/ Write
        \/ Recving \/ CRecv \/ Closing \/ Teardown \/ Closed \/ Fin
        \/ kind = "none" /\ End /\ UNCHANGED <<kind, ch>>
View == l
=============================================================================
