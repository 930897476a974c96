------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Unsigned words of any length as little-endian sequences of bytes.       *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt

IsWord(w, k) == Len(w) = k /\ \A i \in 1..k : w[i] \in 0..255
\* carries out of columns: cols[i] is a number below 2^30
Carried(cols) ==
  FoldLeft(LAMBDA a, c : LET s == c + a.carry
                         IN [out |-> Append(a.out, s % 256), carry |-> s \div 256],
           [out |-> <<>>, carry |-> 0], cols).out
\* x * y modulo 256^Len(x)
WMul(x, y) ==
  Carried([i \in 1..Len(x) |->
    FoldLeft(LAMBDA a, j : a + x[j] * y[i + 1 - j], 0, [j \in 1..i |-> j])])
\* 10 * x + d in Len(x) bytes
TimesTenPlus(x, d) == Carried([i \in 1..Len(x) |-> 10 * x[i] + (IF i = 1 THEN d ELSE 0)])
\* the number written with the decimal digits ds, in k bytes
OfDecimal(ds, k) == FoldLeft(LAMBDA a, d : TimesTenPlus(a, d), [i \in 1..k |-> 0], ds)
\* x = 1 modulo 2^k
Pow2(k) == CASE k = 0 -> 1 [] k = 1 -> 2 [] k = 2 -> 4 [] k = 3 -> 8 [] k = 4 -> 16 [] k = 5 -> 32 [] k = 6 -> 64 [] k = 7 -> 128
IsOneMod(x, k) ==
  \A i \in 1..Len(x) :
    LET one == IF i = 1 THEN 1 ELSE 0
        b == k - 8 * (i - 1)                   \* bits of this byte that count
    IN b <= 0 \/ (IF b >= 8 THEN x[i] = one ELSE x[i] % Pow2(b) = one % Pow2(b))
=============================================================================
