------------------------------- MODULE MCHash -------------------------------
(* Every way of cutting messages of up to MaxLen bytes into updates leaves   *)
(* the same state as absorbing them at once.                                *)
EXTENDS HashAlgo, TLC
CONSTANT MaxLen, MaxPiece
Next == \E n \in 0..MaxPiece : total + n <= MaxLen /\ Update(n)
\* word k of the message (from 0) goes to word k % Cut, a permutation after
\* every Cut words
WordOf(k) == << k % Cut, [i \in 1..WB |-> k * WB + i] >>
RECURSIVE Whole(_, _)
Whole(k, n) == IF k = n THEN <<>>
               ELSE << WordOf(k) >> \o (IF k % Cut = Cut - 1 THEN << << -1, <<>> >> >> ELSE <<>>) \o Whole(k + 1, n)
Same == /\ absorbed = Whole(0, total \div WB)
        /\ word = (total \div WB) % Cut
        /\ saved = [i \in 1..(total % WB) |-> (total \div WB) * WB + i]
        /\ Len(saved) < WB
=============================================================================
