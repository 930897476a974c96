------------------------------ MODULE TcpTrace ------------------------------
(***************************************************************************)
(* Trace specification of TCP connectors (C19): the operations of one      *)
(* connection, the system calls they make and the results of these.        *)
(***************************************************************************)
EXTENDS TraceBase

VARIABLES se,      \* the session: kind, port
          st,      \* "none" (no session), "new", "idle", "active", "closed"
          err,     \* an operation on this connection has failed
          fds, bound, listening, sock, port,
          op,      \* the operation under way
          out, inp \* bytes passed to all sends, bytes read
vars == <<l, se, st, err, fds, bound, listening, sock, port, op, out, inp>>
NoOp == [k |-> "no"]
Init == /\ l = 1 /\ se = [kind |-> "none"] /\ st = "none" /\ err = FALSE /\ fds = {} /\ bound = {} /\ listening = {}
        /\ sock = -1 /\ port = -1 /\ op = NoOp /\ out = 0 /\ inp = 0

Session == /\ Is("session") /\ st = "none"
           /\ se' = [kind |-> Ev.kind, port |-> Ev.port] /\ st' = "new" /\ err' = FALSE
           /\ fds' = {} /\ bound' = {} /\ listening' = {} /\ sock' = -1 /\ port' = -1 /\ op' = NoOp /\ out' = 0 /\ inp' = 0
Made == /\ Is("made") /\ st = "new" /\ Ev.state = 0 /\ st' = "idle"
        /\ UNCHANGED <<se, err, fds, bound, listening, sock, port, op, out, inp>>

Op == /\ Is("op") /\ op = NoOp
      /\ CASE Ev.k = "o" -> st \in {"idle", "closed"}
           [] Ev.k = "c" -> st = "active"
           [] OTHER -> st = "active"
      /\ op' = [k |-> Ev.k, size |-> Ev.size, done |-> 0, bad |-> "no", code |-> 0, from |-> IF Ev.k = "r" THEN inp ELSE out]
      /\ out' = (IF Ev.k = "s" THEN out + Ev.size ELSE out)
      /\ UNCHANGED <<se, st, err, fds, bound, listening, sock, port, inp>>

\* the port of the next connect or bind
Addr == /\ Is("addr") /\ op.k = "o" /\ port' = Ev.port
        /\ UNCHANGED <<se, st, err, fds, bound, listening, sock, op, out, inp>>

Fails == op' = [op EXCEPT !.bad = IF @ = "no" THEN "err" ELSE @, !.code = IF op.bad = "no" THEN Ev.err ELSE @]
Good == op' = op
S(f) == Is("sys") /\ Ev.f = f
Socket == /\ S("socket") /\ op.k = "o" /\ op.bad = "no"
          /\ IF Ev.r >= 0 THEN fds' = fds \cup {Ev.r} /\ Good ELSE fds' = fds /\ Fails
          /\ UNCHANGED <<bound, listening, sock>>
Option == /\ S("option") /\ op.k = "o" /\ Ev.fd \in fds
          /\ (IF Ev.r = 0 THEN Good ELSE Fails) /\ UNCHANGED <<fds, bound, listening, sock>>
Bind == /\ S("bind") /\ op.k = "o" /\ se.kind = "server" /\ Ev.fd \in fds /\ port = se.port /\ op.bad = "no"
        /\ IF Ev.r = 0 THEN bound' = bound \cup {Ev.fd} /\ Good ELSE bound' = bound /\ Fails
        /\ UNCHANGED <<fds, listening, sock>>
Listen == /\ S("listen") /\ op.k = "o" /\ Ev.fd \in bound /\ op.bad = "no"
          /\ IF Ev.r = 0 THEN listening' = listening \cup {Ev.fd} /\ Good ELSE listening' = listening /\ Fails
          /\ UNCHANGED <<fds, bound, sock>>
Accept == /\ S("accept") /\ op.k = "o" /\ Ev.fd \in listening /\ op.bad = "no" /\ sock = -1
          /\ IF Ev.r >= 0 THEN fds' = fds \cup {Ev.r} /\ sock' = Ev.r /\ Good ELSE UNCHANGED <<fds, sock>> /\ Fails
          /\ UNCHANGED <<bound, listening>>
\* a client that is refused tries again
Connect == /\ S("connect") /\ op.k = "o" /\ se.kind = "client" /\ Ev.fd \in fds /\ port = se.port /\ sock = -1 /\ op.bad = "no"
           /\ sock' = (IF Ev.r = 0 THEN Ev.fd ELSE -1) /\ Good
           /\ UNCHANGED <<fds, bound, listening>>
Close == /\ (S("close") \/ S("closel")) /\ op.k \in {"o", "c"} /\ Ev.fd \in fds
         /\ fds' = fds \ {Ev.fd} /\ bound' = bound \ {Ev.fd} /\ listening' = listening \ {Ev.fd}
         /\ sock' = (IF sock = Ev.fd THEN -1 ELSE sock)
         /\ IF Ev.r = 0 THEN Good ELSE Fails
\* What is written is the rest of what the operation has to send (or a part
\* of it), what is read is not more than what it has to receive.
Exact(u, p, k) == u = (IF k = 0 THEN <<>> ELSE <<<<p, k>>>>)
Write == /\ S("write") /\ op.k = "s" /\ Ev.fd = sock /\ op.bad = "no"
         /\ Ev.n >= 1 /\ Ev.n <= op.size - op.done
         /\ Exact(Ev.u, op.from + op.done, Ev.n)
         /\ IF Ev.r >= 0 THEN op' = [op EXCEPT !.done = @ + Ev.r] ELSE Fails
         /\ UNCHANGED <<fds, bound, listening, sock>>
Read == /\ S("read") /\ op.k = "r" /\ Ev.fd = sock /\ op.bad = "no"
        /\ Ev.n >= 1 /\ Ev.n <= op.size - op.done
        /\ IF Ev.r > 0 THEN op' = [op EXCEPT !.done = @ + Ev.r]
           ELSE IF Ev.r = 0 THEN op' = [op EXCEPT !.bad = "eof"] ELSE Fails
        /\ UNCHANGED <<fds, bound, listening, sock>>
Sys == /\ (Socket \/ Option \/ Bind \/ Listen \/ Accept \/ Connect \/ Close \/ Write \/ Read)
       /\ inp' = (IF Ev.f = "read" /\ Ev.r > 0 THEN inp + Ev.r ELSE inp)
       /\ UNCHANGED <<se, st, err, port, out>>

\* ---- how the operation ends
Fine(e) == /\ e.threw = "no" /\ e.n = op.size
           /\ CASE op.k = "o" -> sock # -1 /\ e.state = 1
                [] op.k = "c" -> fds = {} /\ e.state = 2
                [] op.k = "s" -> op.done = op.size /\ (IF err THEN e.state \in {1, 3} ELSE e.state = 1)
                [] op.k = "r" -> /\ op.done = op.size /\ Exact(e.u, op.from, op.size) /\ e.past = 170
                                 /\ (IF err THEN e.state \in {1, 3} ELSE e.state = 1)
\* a failed attempt to connect keeps no descriptor
Failed(e) == /\ e.state = 3
             /\ op.k = "o" => fds = {}
             /\ IF op.bad = "err" THEN e.threw = "system" /\ e.code = op.code ELSE e.threw # "no"
Ret == /\ Is("ret") /\ op # NoOp
       /\ IF op.bad = "no" THEN Fine(Ev) ELSE Failed(Ev)
       /\ st' = (IF op.bad # "no" THEN st ELSE IF op.k = "o" THEN "active" ELSE IF op.k = "c" THEN "closed" ELSE st)
       /\ err' = (err \/ op.bad # "no")
       /\ op' = NoOp
       /\ UNCHANGED <<se, fds, bound, listening, sock, port, out, inp>>
Fin == /\ Is("fin") /\ op = NoOp /\ st # "none" /\ st' = "none"
       /\ UNCHANGED <<se, err, fds, bound, listening, sock, port, op, out, inp>>

\* ---- real sockets: the peer sent `have` bytes and disconnected (with data it
\* had not read: "reset"); asking for more, or writing, is an error.
EPIPE == 32
ECONNRESET == 104
Peer == /\ Is("peer") /\ st = "none"
        /\ IF Ev.what = "write" THEN Ev.threw = "system" /\ Ev.code \in {EPIPE, ECONNRESET} /\ Ev.state = 3
           ELSE IF Ev.want > Ev.have THEN Ev.threw # "no" /\ Ev.state = 3
           ELSE Ev.threw = "no" /\ Ev.n = Ev.want /\ Ev.state = 1
        /\ UNCHANGED <<se, st, err, fds, bound, listening, sock, port, op, out, inp>>

Next == Session \/ Made \/ Op \/ Addr \/ Sys \/ Ret \/ Fin \/ Peer
        \/ (st = "none" /\ End /\ UNCHANGED <<se, st, err, fds, bound, listening, sock, port, op, out, inp>>)
View == l
=============================================================================
