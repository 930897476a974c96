------------------------------ MODULE LogTrace -------------------------------
(***************************************************************************)
(* Trace specification of the loggers (C26): one call per event, with what *)
(* was written to the standard output (or what a custom logger has seen).  *)
(* Text is a sequence of character codes.                                  *)
(***************************************************************************)
EXTENDS TraceBase, Interpolate
VARIABLE x0
Marker(level) == CASE level = 0 -> <<91, 32, 93, 32>>      \* "[ ] "
                   [] level = 1 -> <<91, 87, 93, 32>>      \* "[W] "
                   [] OTHER -> <<91, 69, 93, 32>>          \* "[E] "
Stamp(t) == <<91>> \o t \o <<93, 32>>                       \* "[HH:MM:SS] "
Line(level, stamp, m) == Marker(level) \o stamp \o m \o <<10>>
Log == /\ Is("log")
       /\ \E e \in {Ev} : \E m \in {Message(e.fmt, e.args)} :
          CASE e.kind = "plain" -> e.seen = <<>> /\ e.out = Line(e.level, <<>>, m)
            [] e.kind = "stamped" -> /\ e.seen = <<>>
                                     /\ \E t \in {e.before, e.after} : e.out = Line(e.level, Stamp(t), m)
            [] e.kind = "custom" -> /\ e.out = <<>>
                                    /\ e.seen = <<<<"begin", e.level, <<>>>>, <<"message", 0, m>>, <<"end", e.level, <<>>>>>>
            [] e.kind = "void" -> e.seen = <<>> /\ e.out = <<>>
Init == l = 1 /\ x0 = 0
Next == (Log \/ End) /\ UNCHANGED x0
View == l
=============================================================================
