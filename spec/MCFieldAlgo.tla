---------------------------- MODULE MCFieldAlgo ----------------------------
(* Every pair of elements, every word: the algorithms are exact and stay in *)
(* their words.                                                             *)
EXTENDS FieldAlgo
VARIABLES x, y
Init == x \in 0..(2^W - 1) /\ y \in 0..(P - 1)
Next == UNCHANGED <<x, y>>
Exact ==
  /\ Red(x) \in 0..(P - 1) /\ (x - Red(x)) % P = 0
  /\ x < P =>
     /\ AddM(x, y) = (x + y) % P /\ SubM(x, y) = (x - y) % P /\ MulM(x, y) = (x * y) % P
     /\ NegM(x) = (0 - x) % P
     /\ x # 0 => InvM(x)[2] /\ InvM(x)[1] \in 1..(P - 1) /\ (x * InvM(x)[1]) % P = 1
  /\ P > 10 => OfText(0, << y % 10, x % 10, (x \div 10) % 10 >>) = ((y % 10) * 100 + (x % 10) * 10 + ((x \div 10) % 10)) % P
=============================================================================
