----------------------------- MODULE TextTrace ------------------------------
(***************************************************************************)
(* Trace specification of small pure functions: inverses modulo powers of  *)
(* two (C29) and the textual forms of values (C30).                        *)
(***************************************************************************)
EXTENDS TraceBase, Words
LOCAL INSTANCE SequencesExt
VARIABLE x0     \* no state: every event is judged by itself

\* ---- C29
Odd(w) == w[1] % 2 = 1
Inv2 == /\ Is("inv2")
        /\ IF Ev.k <= 128 /\ Odd(Ev.v)
           THEN /\ Ev.ok /\ IsWord(Ev.r, Len(Ev.v)) /\ Ev.k <= 8 * Len(Ev.v)
                /\ Holds(IsOneMod(WMul(Ev.v, Ev.r), Ev.k))
           ELSE ~Ev.ok

\* ---- C30
DigitsOf(t) == [i \in 1..Len(t) |-> t[i] - 48]
Number == /\ Is("number")
          /\ Len(Ev.text) >= 1 /\ Holds(\A i \in 1..Len(Ev.text) : Ev.text[i] \in 48..57)
          /\ Holds(Len(Ev.text) = 1 \/ Ev.text[1] # 48)
          /\ Len(Ev.text) <= (IF Len(Ev.v) = 8 THEN 20 ELSE 39)
          \* (one byte more, so that nothing is lost)
          /\ OfDecimal(DigitsOf(Ev.text), Len(Ev.v) + 1) = Append(Ev.v, 0)
          /\ Ev.back = Ev.v
HexDigit(k) == IF k < 10 THEN 48 + k ELSE 55 + k
Hex(bs) == FlattenSeq([i \in 1..Len(bs) |-> (IF i = 1 THEN <<>> ELSE <<32>>) \o <<HexDigit(bs[i] \div 16), HexDigit(bs[i] % 16)>>])
HexText == Is("hex") /\ Ev.text = Hex(Ev.b)
Shown == 5
Elided(k) == IF k = 0 THEN "" ELSE IF k = 1 THEN ", ... (1 more element)" ELSE ", ... (" \o ToString(k) \o " more elements)"
\* "#[" the first five, separated, then how many are left out "]"
ListForm(s) ==
  LET k == IF Len(s) < Shown THEN Len(s) ELSE Shown
  IN "#[" \o FoldLeft(LAMBDA a, i : a \o (IF i = 1 THEN "" ELSE ", ") \o s[i], "", [i \in 1..k |-> i]) \o Elided(Len(s) - k) \o "]"
List == Is("list") /\ Ev.text = ListForm(Ev.items)
StateName(s) == CASE s = 0 -> "IDLE" [] s = 1 -> "ACTIVE" [] s = 2 -> "CLOSED" [] s = 3 -> "ERROR"
Connector(e) ==
  IF e.kind = "server" THEN "TCPServerConnector(state = " \o StateName(e.state) \o ", port = " \o ToString(e.port) \o ")"
  ELSE "TCPClientConnector(state = " \o StateName(e.state) \o ", server = " \o e.host \o ":" \o ToString(e.port) \o ")"
\* a connector, and the channel over it, describe themselves with their state
Says == /\ Is("says") /\ Ev.state \in 0..3 /\ Ev.cstate = Ev.state
        /\ Ev.text = Connector(Ev) /\ Ev.chan = "<Channel(" \o Connector(Ev) \o ")>"
        /\ Ev.state = CASE Ev.threw -> 3 [] Ev.op = "new" -> 0 [] Ev.op \in {"open", "send", "recv"} -> 1 [] OTHER -> 2

Init == l = 1 /\ x0 = 0
Next == (Inv2 \/ Number \/ HexText \/ List \/ Says \/ End) /\ UNCHANGED x0
View == l
=============================================================================
