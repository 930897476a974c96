----------------------------- MODULE BuildTrace ------------------------------
(* Trace specification of the network builder (C21). *)
EXTENDS TraceBase, Builder
VARIABLES d, loggers
vars == <<l, d, loggers>>
Init == l = 1 /\ d = Empty /\ loggers = 0
Session == Is("bsession") /\ d' = Empty /\ loggers' = 0
C(k) == Is("call") /\ Ev.k = k
Ok == Ev.threw = "no"
\* a part that is refused changes nothing
Part(k, allowed, new) == C(k) /\ Ok \in allowed /\ d' = (IF Ok THEN new ELSE d) /\ UNCHANGED loggers
Call ==
  \/ Part("i", {IdOk(d, Ev.v)}, [d EXCEPT !.id = <<Ev.v>>])
  \/ Part("n", {SizeOk(d, Ev.v)}, [d EXCEPT !.n = <<Ev.v>>])
  \/ Part("t", {TRUE}, [d EXCEPT !.tcp = <<Ev.v = 1>>])
  \/ Part("p", PortOk(Ev.v), [d EXCEPT !.port = <<Ev.v>>])
  \/ C("f") /\ Part("f", {Ev.v >= 0 /\ FileOk(d, Ev.lines)}, [d EXCEPT !.ips = <<Ev.lines>>])
  \/ Part("l", {TRUE}, [d EXCEPT !.local = TRUE])
Logger == C("g") /\ Ok /\ d' = [d EXCEPT !.logger = loggers] /\ loggers' = loggers + 1
Build == /\ C("b") /\ Ok = BuildOk(d)
         /\ Ok => /\ Ev.id = d.id[1] /\ Ev.size = d.n[1]
                  /\ Ev.chans = Channels(d)
                  /\ d.n[1] = 1 => Ev.logs = d.logger
         /\ UNCHANGED <<d, loggers>>
Next == Session \/ Call \/ Logger \/ Build \/ (End /\ UNCHANGED <<d, loggers>>)
View == l
=============================================================================
