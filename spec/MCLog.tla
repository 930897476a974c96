-------------------------------- MODULE MCLog --------------------------------
(***************************************************************************)
(* The code's interpolation: characters are copied up to a placeholder,    *)
(* then the first argument, then the rest with the other arguments.        *)
(* Message is compared with the definition by ranks, and with this, for    *)
(* all short formats and arguments (which may contain placeholders).       *)
(***************************************************************************)
EXTENDS Interpolate, FiniteSets, TLC
Seqs(A, k) == UNION {[1..m -> A] : m \in 0..k}
Formats == Seqs({37, 97}, 6)
Args == Seqs({<<>>, <<37>>, <<120, 37>>}, 3)
RECURSIVE Algo(_, _)
Algo(f, args) ==
  IF args = <<>> THEN f
  ELSE IF f = <<>> THEN <<>>
  ELSE IF f[1] = 37 THEN args[1] \o Algo(Tail(f), Tail(args))
  ELSE <<f[1]>> \o Algo(Tail(f), args)
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Cat(Tail(s))
ByRank(f, args) == Cat([i \in 1..Len(f) |-> IF f[i] = 37 /\ Rank(f, i) <= Len(args) THEN args[Rank(f, i)] ELSE <<f[i]>>])
VARIABLES fm, done
Init == fm \in Formats /\ done = FALSE
Next == done = FALSE /\ done' = TRUE /\ fm' = fm
Same == \A a \in Args : Message(fm, a) = Algo(fm, a) /\ Message(fm, a) = ByRank(fm, a)
\* nothing is lost: without arguments the text is the format
Plain == Message(fm, <<>>) = fm
=============================================================================
