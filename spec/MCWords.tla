------------------------------ MODULE MCWords ------------------------------
(***************************************************************************)
(* The arithmetic on bytes of Words is that of the integers: all words of  *)
(* two bytes times a panel, all numbers up to 65535, every K.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Words
word(x, k) == [i \in 1..k |-> (x \div (256 ^ (i - 1))) % 256]
num(w) == FoldLeft(LAMBDA a, i : a + w[i] * 256 ^ (i - 1), 0, [i \in 1..Len(w) |-> i])
Panel == {0, 1, 2, 3, 5, 10, 16, 127, 128, 255, 256, 257, 511, 4095, 32767, 32768}
ASSUME \A x \in 0..65535 : num(word(x, 2)) = x /\ IsWord(word(x, 2), 2)
ASSUME \A x \in {3 * i : i \in 0..21845} : \A y \in Panel : WMul(word(x, 2), word(y, 2)) = word((x * y) % 65536, 2)
RECURSIVE Digits(_)
Digits(x) == IF x < 10 THEN <<x>> ELSE Append(Digits(x \div 10), x % 10)
ASSUME \A x \in 0..65535 : OfDecimal(Digits(x), 3) = word(x, 3)
ASSUME \A x \in Panel \cup {65535, 65534} : \A k \in 1..16 : IsOneMod(word(x, 2), k) <=> (x % (2 ^ k) = 1)
VARIABLE u
Init == u = 0
Next == UNCHANGED u
=============================================================================
