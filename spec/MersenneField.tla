--------------------------- MODULE MersenneField ---------------------------
(***************************************************************************)
(* Arithmetic modulo the Mersenne prime  P = 2^M - 1  on little-endian     *)
(* sequences of L limbs of B bits, (L-1)*B < M <= L*B.  TLC integers have  *)
(* 32 bits, so the 61- and 127-bit fields of the code are represented by   *)
(* 5 and 10 limbs of 13 bits.  MCMersenneField checks every operator       *)
(* exhaustively against integer arithmetic modulo P on small instances.    *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS B,    \* bits in a limb (at most 13)
          L,    \* limbs in an element
          M     \* P = 2^M - 1

ASSUME /\ B \in 1..13 /\ L \in 1..16 /\ (L-1)*B < M /\ M <= L*B

TopBits == M - (L-1)*B              \* used bits of the last limb
W       == 2^B                      \* base
TopW    == 2^TopBits
Excess  == 2^(L*B - M)              \* 2^(L*B) is congruent to Excess

LimbMax(i) == IF i = L THEN TopW - 1 ELSE W - 1

PLimbs == [i \in 1..L |-> LimbMax(i)]         \* the prime itself
Zero   == [i \in 1..L |-> 0]
One    == [i \in 1..L |-> IF i = 1 THEN 1 ELSE 0]

\* Canonical representatives only: every limb in range and not P itself.
IsElem(x) == /\ DOMAIN x = 1..L
             /\ \A i \in 1..L : x[i] \in 0..LimbMax(i)
             /\ x # PLimbs

Canon(x) == IF x = PLimbs THEN Zero ELSE x

\* Propagates carries through the L limbs of s (entries < 2^29); the bits at
\* and above M are folded back in at the bottom, as 2^M is congruent to 1.
RECURSIVE Carry(_, _, _)
Carry(s, i, acc) ==          \* acc = << limbs so far, carry >>
  IF i > L THEN acc
  ELSE LET v == s[i] + acc[2]
           w == IF i = L THEN TopW ELSE W
       IN  Carry(s, i+1, << Append(acc[1], v % w), v \div w >>)

RECURSIVE Fold(_)
Fold(s) == LET c == Carry(s, 1, << <<>>, 0 >>)
           IN  IF c[2] = 0 THEN Canon(c[1])
               ELSE Fold([c[1] EXCEPT ![1] = @ + c[2]])

Add(x, y) == Fold([i \in 1..L |-> x[i] + y[i]])
Neg(x)    == Canon([i \in 1..L |-> LimbMax(i) - x[i]])
Sub(x, y) == Add(x, Neg(y))

\* Schoolbook product: 2L-1 columns, carried to 2L limbs of B bits each, and
\* the upper L of them folded in with weight 2^(L*B) = Excess (mod P).
RECURSIVE Col(_, _, _, _, _)
Col(x, y, k, i, acc) ==      \* sum of x[i]*y[k+1-i]
  IF i > L \/ i > k THEN acc
  ELSE Col(x, y, k, i+1, IF k+1-i <= L THEN acc + x[i]*y[k+1-i] ELSE acc)

RECURSIVE Wide(_, _, _, _)
Wide(x, y, k, acc) ==
  IF k > 2*L THEN acc[1]
  ELSE LET v == acc[2] + (IF k = 2*L THEN 0 ELSE Col(x, y, k, 1, 0))
       IN  Wide(x, y, k+1, << Append(acc[1], v % W), v \div W >>)

Mul(x, y) == LET z == Wide(x, y, 1, << <<>>, 0 >>)
             IN  Fold([i \in 1..L |-> z[i] + Excess * z[L+i]])

RECURSIVE SumSeq(_, _, _)
SumSeq(s, i, acc) == IF i > Len(s) THEN acc ELSE SumSeq(s, i+1, Add(acc, s[i]))
Sum(s) == SumSeq(s, 1, Zero)

RECURSIVE DotSeq(_, _, _, _)
DotSeq(s, t, i, acc) ==
  IF i > Len(s) THEN acc ELSE DotSeq(s, t, i+1, Add(acc, Mul(s[i], t[i])))
Dot(s, t) == DotSeq(s, t, 1, Zero)

\* A small integer (0 <= k < 2^29) as an element.
OfInt(k) == Fold([i \in 1..L |-> IF i = 1 THEN k ELSE 0])

\* Little-endian digit sequence in base 2^b (b <= 8 for bytes, or 10 with
\* radix given directly): Horner evaluation, most significant digit first.
RECURSIVE Horner(_, _, _, _)
Horner(digits, radix, i, acc) ==
  IF i > Len(digits) THEN acc
  ELSE Horner(digits, radix, i+1, Add(Mul(acc, OfInt(radix)), OfInt(digits[i])))
OfDigits(bigEndianDigits, radix) == Horner(bigEndianDigits, radix, 1, Zero)
=============================================================================
