----------------------------- MODULE TypedTrace -----------------------------
(***************************************************************************)
(* Trace specification for typed messages, the communication summary and   *)
(* serialization (C23, C24).  Between every two parties there is a queue   *)
(* of typed elements (field elements "v", the elements of shares "s" and   *)
(* bytes "b"); how they are grouped into calls does not matter.            *)
(***************************************************************************)
EXTENDS TraceBase

VARIABLES n, ss,          \* parties (0 between sessions), elements of a share
          q,              \* elements under way, by << from, to >>
          sent, rcvd      \* bytes, by << party, peer >>: << millions, rest >>
vars == <<l, n, ss, q, sent, rcvd>>
P == 0..(n - 1)
Init == l = 1 /\ n = 0 /\ ss = 0 /\ q = <<>> /\ sent = <<>> /\ rcvd = <<>>
Million == 1000000
Nil == <<0, 0>>
\* (TLC's integers have 32 bits)
CountUp(c, k) == <<c[1] + (c[2] + k) \div Million, (c[2] + k) % Million>>
Positive(c) == c[1] > 0 \/ c[2] > 0
Pad(k) == IF k >= 100000 THEN "" ELSE IF k >= 10000 THEN "0" ELSE IF k >= 1000 THEN "00" ELSE IF k >= 100 THEN "000"
          ELSE IF k >= 10 THEN "0000" ELSE "00000"
Show(c) == IF c[1] = 0 THEN ToString(c[2]) ELSE ToString(c[1]) \o Pad(c[2]) \o ToString(c[2])
Size(t) == IF t = "b" THEN 1 ELSE 8

Session == /\ Is("session") /\ n = 0
           /\ n' = Ev.n /\ ss' = Ev.ss
           /\ LET Q == 0..(Ev.n - 1) IN
              /\ q' = [x \in Q \X Q |-> <<>>] /\ sent' = [x \in Q \X Q |-> Nil] /\ rcvd' = [x \in Q \X Q |-> Nil]
Made == Is("made") /\ Ev.p \in P /\ Ev.id = Ev.p /\ Ev.size = n /\ UNCHANGED <<n, ss, q, sent, rcvd>>

TSend == /\ Is("tsend")
         /\ LET x == <<Ev.p, Ev.to>> e == Ev IN
            /\ q' = [q EXCEPT ![x] = @ \o [i \in 1..Len(e.v) |-> <<e.t, e.v[i]>>]]
            /\ sent' = [sent EXCEPT ![x] = CountUp(@, Size(e.t) * Len(e.v))]
         /\ UNCHANGED <<n, ss, rcvd>>
Elements(e) == IF e.t = "s" THEN e.k * ss ELSE e.k
TRecv == /\ Is("trecv")
         /\ \E e \in {Ev} : LET x == <<e.from, e.p>> k == Elements(e) IN
            \E was \in {q[x]} :
            /\ Len(e.v) = k /\ k <= Len(was)
            /\ For("C24") => /\ Holds(\A i \in 1..k : was[i] = <<e.t, e.v[i]>>)
                             /\ e.t = "s" => e.z = [i \in 1..e.k |-> ss]
            /\ q' = [q EXCEPT ![x] = SubSeq(was, k + 1, Len(was))]
            /\ rcvd' = [rcvd EXCEPT ![<<e.p, e.from>>] = CountUp(@, Size(e.t) * k)]
         /\ UNCHANGED <<n, ss, sent>>

\* many bytes sent and received again, without their values
Bulk == /\ Is("bulk") /\ Ev.same /\ q[<<Ev.p, Ev.to>>] = <<>>
        /\ sent' = [sent EXCEPT ![<<Ev.p, Ev.to>>] = CountUp(@, Ev.k)]
        /\ rcvd' = [rcvd EXCEPT ![<<Ev.to, Ev.p>>] = CountUp(@, Ev.k)]
        /\ UNCHANGED <<n, ss, q>>

\* ---- what is printed
Line(s, r, i) ==
  IF Positive(s) /\ Positive(r) THEN "sent/received to/from " \o ToString(i) \o ": " \o Show(s) \o "/" \o Show(r) \o " bytes\n"
  ELSE IF Positive(s) THEN "sent to " \o ToString(i) \o ": " \o Show(s) \o " bytes\n"
  ELSE IF Positive(r) THEN "received from " \o ToString(i) \o ": " \o Show(r) \o " bytes\n"
  ELSE ""
RECURSIVE Lines(_, _)
Lines(p, i) == IF i = n THEN "" ELSE Line(sent[<<p, i>>], rcvd[<<p, i>>], i) \o Lines(p, i + 1)
Text(p) == "communication summary for " \o ToString(p) \o ":\n" \o Lines(p, 0) \o "\n"
Summary == /\ Is("summary")
           /\ For("C23") => Ev.text = Text(Ev.p)
           /\ UNCHANGED <<n, ss, q, sent, rcvd>>

Fin == /\ Is("fin") /\ n # 0
       /\ \A x \in DOMAIN q : q[x] = <<>>
       \* the bytes that went over the connection of each pair (a party is not
       \* connected to itself)
       /\ For("C23") => \A a, b \in P : a # b => CountUp(Nil, Ev.wire[a + 1][b + 1]) = sent[<<a, b>>]
       /\ n' = 0 /\ UNCHANGED <<ss, q, sent, rcvd>>

\* ---- serialization: `size` bytes are announced, exactly these were written
\* (the rest of the buffer unchanged), and what is read from them -- from a
\* place directly before memory that cannot be accessed -- are the same values.
Serial == /\ Is("serial") /\ n = 0
          /\ Ev.size = Ev.count * Ev.each
          /\ Ev.written = Ev.size /\ Ev.outside = 0
          /\ Ev.back = Ev.items /\ Len(Ev.items) = Ev.count
          /\ UNCHANGED <<n, ss, q, sent, rcvd>>

Next == Session \/ Made \/ TSend \/ TRecv \/ Bulk \/ Summary \/ Fin \/ Serial \/ (n = 0 /\ End /\ UNCHANGED <<n, ss, q, sent, rcvd>>)
View == l
=============================================================================
