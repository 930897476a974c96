------------------------------- MODULE MCTcp --------------------------------
(***************************************************************************)
(* A connector sends K bytes to another one over a stream that takes and   *)
(* delivers them in parts of any size (at most Room are under way).  The   *)
(* write may fail, and the sender's end may go away, at any point.         *)
(*   Offset:  "kept" each transfer starts at the beginning of the buffer   *)
(*            "moved" where the previous one stopped (the code)            *)
(*   Loop:    "once" one transfer is made; "all" until nothing remains     *)
(*   Eof:     "retry" end of stream counts as an empty read; "error"       *)
(*   OnError: "silent" the state stays as it was; "state"                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS K, Room, Offset, Loop, Eof, OnError
VARIABLES sstate, sdone, soff,      \* sender: "run", "ok", "threw"; bytes counted as written; where the next write starts
          rstate, rdone, roff, buf, \* receiver
          sflag, rflag,             \* connector states "active", "error"
          pipe, open
vars == <<sstate, sdone, soff, rstate, rdone, roff, buf, sflag, rflag, pipe, open>>
Data == [i \in 1..K |-> i]
Init == /\ sstate = (IF K = 0 THEN "ok" ELSE "run") /\ rstate = (IF K = 0 THEN "ok" ELSE "run")
        /\ sdone = 0 /\ soff = 0 /\ rdone = 0 /\ roff = 0 /\ buf = [i \in 1..K |-> 0]
        /\ sflag = "active" /\ rflag = "active" /\ pipe = <<>> /\ open = TRUE

Write(r) == /\ sstate = "run" /\ open /\ r >= 1 /\ r <= K - sdone /\ Len(pipe) + r <= Room
            /\ pipe' = pipe \o SubSeq(Data, soff + 1, soff + r)
            /\ sdone' = sdone + r /\ soff' = (IF Offset = "moved" THEN soff + r ELSE soff)
            /\ sstate' = (IF sdone + r = K \/ Loop = "once" THEN "ok" ELSE "run")
            /\ UNCHANGED <<rstate, rdone, roff, buf, sflag, rflag, open>>
WriteFails == /\ sstate = "run" /\ sstate' = "threw" /\ sflag' = (IF OnError = "state" THEN "error" ELSE sflag)
              /\ UNCHANGED <<sdone, soff, rstate, rdone, roff, buf, rflag, pipe, open>>
Gone == /\ sstate \in {"ok", "threw"} /\ open /\ open' = FALSE
        /\ UNCHANGED <<sstate, sdone, soff, rstate, rdone, roff, buf, sflag, rflag, pipe>>
Read(r) == /\ rstate = "run" /\ r >= 1 /\ r <= K - rdone /\ r <= Len(pipe)
           /\ buf' = [i \in 1..K |-> IF i > roff /\ i <= roff + r THEN pipe[i - roff] ELSE buf[i]]
           /\ pipe' = SubSeq(pipe, r + 1, Len(pipe))
           /\ rdone' = rdone + r /\ roff' = (IF Offset = "moved" THEN roff + r ELSE roff)
           /\ rstate' = (IF rdone + r = K \/ Loop = "once" THEN "ok" ELSE "run")
           /\ UNCHANGED <<sstate, sdone, soff, sflag, rflag, open>>
ReadEof == /\ rstate = "run" /\ pipe = <<>> /\ ~open
           /\ IF Eof = "error" THEN rstate' = "threw" /\ rflag' = (IF OnError = "state" THEN "error" ELSE rflag)
              ELSE UNCHANGED <<rstate, rflag>>
           /\ UNCHANGED <<sstate, sdone, soff, rdone, roff, buf, sflag, pipe, open>>
Done == sstate # "run" /\ rstate # "run" /\ ~open
Next == (\E r \in 1..K : Write(r) \/ Read(r)) \/ WriteFails \/ Gone \/ ReadEof \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
             /\ \A r \in 1..K : WF_vars(Read(r)) /\ WF_vars(Write(r))
             /\ WF_vars(Gone) /\ WF_vars(ReadEof)

\* success means everything arrived, at the right places; anything else is an error
Delivered == rstate = "ok" => buf = Data
Written == sstate = "ok" => sdone = K
Reported == (sstate = "threw" <=> sflag = "error") /\ (rstate = "threw" <=> rflag = "error")
Terminates == <>(sstate # "run" /\ rstate # "run")
=============================================================================
