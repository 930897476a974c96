----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Common part of the trace specifications: Trace is the recorded          *)
(* execution, one event per line; l is the next line.  A trace is accepted *)
(* if every line is a step the specification allows; the last line of a    *)
(* complete recording is the event "end".                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l

Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Has(r, f) == f \in DOMAIN r
End == Is("end") /\ l = Len(Trace)

\* The property being decided: parts of an action that belong to another
\* property only are not required.
For(p) == IOEnv.PROP = p

\* Evaluates p as a value.  (TLC evaluates a bare \A in an action by one nested
\* call per element, which overflows its stack on long lines.)
Holds(p) == p = TRUE

Complete == Len(Trace) > 0 /\ Trace[Len(Trace)].e = "end"
Accepted ==
  \/ Complete /\ TLCGet("stats").diameter - 1 = Len(Trace)
  \/ PrintT(<<"REJECTED", TLCGet("stats").diameter, Len(Trace)>>) /\ FALSE
=============================================================================
