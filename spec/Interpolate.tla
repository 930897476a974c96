----------------------------- MODULE Interpolate -----------------------------
(* Messages as sequences of character codes; 37 is the placeholder. *)
EXTENDS Integers, Sequences
\* the i-th placeholder becomes the i-th argument, all other text is kept
Rank(f, i) == Len(SelectSeq(SubSeq(f, 1, i), LAMBDA c : c = 37))
RECURSIVE From(_, _, _, _)
From(f, args, i, r) == IF i > Len(f) THEN <<>>
  ELSE IF f[i] = 37 /\ r < Len(args) THEN args[r + 1] \o From(f, args, i + 1, r + 1)
  ELSE <<f[i]>> \o From(f, args, i + 1, r)
Message(f, args) == From(f, args, 1, 0)
=============================================================================
