------------------------------ MODULE MCChannel -----------------------------
(***************************************************************************)
(* A channel with a background sender: the user's thread calls Send n      *)
(* times and then Close; the sender takes the first message of the queue,  *)
(* writes it to the transport, removes it, and stops after the mark that   *)
(* Close appends (or when a write fails).                                  *)
(*   Drain:  "wait"  Close appends the mark, waits for the sender, and     *)
(*                   then tears the connection down (the code)             *)
(*           "torn"  Close tears down first                                *)
(*           "early" Close appends the mark only if the queue is empty ... *)
(*                   and the sender looks for that before each message     *)
(*   Order:  "write" a message is removed after it was written             *)
(*           "pop"   before                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Sends, Fail, Drain, Order, MarkAfterFailure

VARIABLES pc,       \* << user, sender >>
          queue, inhand, written, failed, torn, closed, early
vars == <<pc, queue, inhand, written, failed, torn, closed, early>>
Mark == 0
U(x) == pc' = [pc EXCEPT ![1] = x]
Snd(x) == pc' = [pc EXCEPT ![2] = x]

Init == /\ pc = <<0, 0>> /\ queue = <<>> /\ inhand = 0 /\ written = <<>>
        /\ failed = FALSE /\ torn = FALSE /\ closed = FALSE /\ early = FALSE

\* user: 0 .. Sends-1 sending; 100 closing; 101 mark is in; 102 sender joined; 103 torn down; 200 done
UserSend == /\ pc[1] < Sends /\ queue' = Append(queue, pc[1] + 1) /\ U(pc[1] + 1)
            /\ UNCHANGED <<inhand, written, failed, torn, closed, early>>
StartClose == /\ pc[1] = Sends /\ U(100)
              /\ UNCHANGED <<queue, inhand, written, failed, torn, closed, early>>
TornFirst == /\ Drain = "torn" /\ pc[1] = 100 /\ ~torn /\ torn' = TRUE /\ U(100)
             /\ UNCHANGED <<queue, inhand, written, failed, closed, early>>
PutMark == /\ pc[1] = 100 /\ (Drain = "torn" => torn)
           /\ IF Drain = "early" THEN early' = TRUE /\ queue' = Append(queue, Mark)
              ELSE early' = early /\ queue' = Append(queue, Mark)
           /\ U(101) /\ UNCHANGED <<inhand, written, failed, torn, closed>>
Joined == /\ pc[1] = 101 /\ pc[2] = 9 /\ U(102)
          /\ UNCHANGED <<queue, inhand, written, failed, torn, closed, early>>
Teardown == /\ pc[1] = 102 /\ torn' = TRUE /\ U(103)
            /\ UNCHANGED <<queue, inhand, written, failed, closed, early>>
Closed == /\ pc[1] = 103 /\ closed' = TRUE /\ U(200)
          /\ UNCHANGED <<queue, inhand, written, failed, torn, early>>

\* sender: 0 wait for a message; 1 has it; 2 write begun; 3 written; 9 stopped
Take == /\ pc[2] = 0 /\ queue # <<>> /\ inhand' = Head(queue)
        /\ queue' = (IF Order = "pop" THEN Tail(queue) ELSE queue)
        /\ Snd(IF early THEN 9 ELSE IF Head(queue) = Mark THEN 3 ELSE 1)
        /\ UNCHANGED <<written, failed, torn, closed, early>>
Begin == /\ pc[2] = 1 /\ Snd(2) /\ UNCHANGED <<queue, inhand, written, failed, torn, closed, early>>
Write == /\ pc[2] = 2
         /\ IF torn \/ Len(written) >= Fail
            THEN failed' = TRUE /\ written' = written /\ Snd(IF MarkAfterFailure THEN 9 ELSE 8)
            ELSE failed' = failed /\ written' = Append(written, inhand) /\ Snd(3)
         /\ UNCHANGED <<queue, inhand, torn, closed, early>>
Pop == /\ pc[2] = 3
       /\ queue' = (IF Order = "pop" THEN queue ELSE Tail(queue))
       /\ Snd(IF inhand = Mark THEN 9 ELSE 0)
       /\ UNCHANGED <<inhand, written, failed, torn, closed, early>>

AllDone == pc[1] = 200
Next == \/ UserSend \/ StartClose \/ TornFirst \/ PutMark \/ Joined \/ Teardown \/ Closed
        \/ Take \/ Begin \/ Write \/ Pop
        \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Sent == [i \in 1..(IF pc[1] < 100 THEN pc[1] ELSE Sends) |-> i]
InOrder == Len(written) <= Len(Sent) /\ written = SubSeq(Sent, 1, Len(written))
\* the connection is torn down only when everything has been written, or a
\* write has failed while it existed
Drained == torn => (written = Sent \/ (failed /\ Fail < 99))
Quiet == torn => pc[2] # 2
CloseReturns == <>AllDone
=============================================================================
