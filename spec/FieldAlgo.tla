----------------------------- MODULE FieldAlgo -----------------------------
(***************************************************************************)
(* The code's algorithms on machine words: the prime is P = 2^M - 1 and a  *)
(* word has W bits, W > M (the code: W = 64, M = 61 and W = 128, M = 127). *)
(* MCFieldAlgo checks them exhaustively on small words.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS M, W
P == 2^M - 1
Word(x) == x % (2^W)                    \* what is left in a word
SignedOk(x) == x >= -(2^(W-1)) /\ x < 2^(W-1)

Red(x) == x % P
AddM(x, y) == LET z == Word(x + y) IN IF z >= P THEN z - P ELSE z
SubM(x, y) == Word((IF x < y THEN Word(x + P) ELSE x) - y)
NegM(x)    == IF x # 0 THEN P - x ELSE x
\* the product has 2W bits: its bits from M on, and its lower M bits
MulM(x, y) == LET z == x * y IN AddM(Word(z \div 2^M), z % 2^M)
\* extended Euclid; the last component says no signed word overflowed
RECURSIVE Euclid(_, _, _, _, _)
Euclid(t, newt, r, newr, ok) ==
  IF newr = 0 THEN << t, r, ok >>
  ELSE LET q == r \div newr IN
       Euclid(newt, t - q * newt, newr, r - q * newr,
              ok /\ SignedOk(q * newt) /\ SignedOk(t - q * newt) /\ SignedOk(q * newr))
InvM(v) == LET e == Euclid(0, 1, P, v, TRUE) IN
  << IF e[1] < 0 THEN e[1] + P ELSE e[1], e[2] = 1 /\ e[3] >>
\* decimal text, digit by digit
RECURSIVE OfText(_, _)
OfText(v, ds) == IF ds = <<>> THEN v
                 ELSE LET d == ds[1] IN OfText(AddM(MulM(v, Red(10)), d % P), [i \in 1..(Len(ds) - 1) |-> ds[i + 1]])
=============================================================================
