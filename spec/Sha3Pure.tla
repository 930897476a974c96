------------------------------ MODULE Sha3Pure ------------------------------
(***************************************************************************)
(* SHA-3 (FIPS 202) on byte sequences.  A lane of 64 bits is a sequence of *)
(* four 16-bit limbs, least significant first; the state is 25 lanes,      *)
(* lane (x, y) at 5y + x + 1.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise, Eager

Xor4(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
AndNot4(a, b) ==   \* (~a) & b
  <<(65535 - a[1]) & b[1], (65535 - a[2]) & b[2], (65535 - a[3]) & b[3], (65535 - a[4]) & b[4]>>
\* rotation to the left by n (0..63)
Rotl(a, n) ==
  LET q == n \div 16 s == n % 16
      At(i) == a[((i - 1 + 8 - q) % 4) + 1]
      Lo(v) == (v % 2^(16 - s)) * 2^s       \* the part that stays in the limb
      Hi(v) == v \div 2^(16 - s)            \* the part that moves up
  IN  [i \in 1..4 |-> Lo(At(i)) + Hi(At(i - 1 + 4))]

\* The rotation offsets and the round constants, from their definitions.
RhoTab == \* offset of lane (x, y), by the walk (1,0), (y, 2x+3y), ...
  LET Walk == FoldLeft(LAMBDA acc, t :
        LET x == acc.x y == acc.y IN
        [x |-> y, y |-> (2 * x + 3 * y) % 5,
         m |-> (5 * y + x + 1 :> (((t + 1) * (t + 2)) \div 2) % 64) @@ acc.m],
        [x |-> 1, y |-> 0, m |-> (1 :> 0)], [t \in 1..24 |-> t - 1])
  IN Walk.m
Rho == EagerSeq(25, LAMBDA i : RhoTab[i])

\* rc(t): bit 0 of the LFSR x^8+x^6+x^5+x^4+1 after t steps
LfsrBits == FoldLeft(LAMBDA acc, t :
    LET r == acc.r * 2 n == IF r > 255 THEN (r - 256) ^^ 113 ELSE r
    IN [r |-> n, s |-> Append(acc.s, acc.r % 2)],
    [r |-> 1, s |-> <<>>], [t \in 1..168 |-> t]).s
RC == EagerSeq(24, LAMBDA r :
  LET bit(j) == LfsrBits[7 * (r - 1) + j + 1] IN   \* sets bit 2^j - 1
  << bit(0) + 2 * bit(1) + 8 * bit(2) + 128 * bit(3) + 32768 * bit(4),
     32768 * bit(5), 0, 32768 * bit(6) >>)

Round(A, r) ==
  LET C == TLCEval([x \in 1..5 |-> Xor4(Xor4(Xor4(A[x], A[x+5]), Xor4(A[x+10], A[x+15])), A[x+20])])
      D == TLCEval([x \in 1..5 |-> Xor4(C[((x + 3) % 5) + 1], Rotl(C[(x % 5) + 1], 1))])
      \* theta, then rho and pi: B[y, 2x+3y] = rot(A[x, y])
      \* the lane that lands at (X, Y) comes from x = X + 3Y, y = X
      Bl == TLCEval([i \in 1..25 |->
             LET X == (i - 1) % 5 Y == (i - 1) \div 5
                 sx == (X + 3 * Y) % 5 sy == X
                 src == 5 * sy + sx + 1
             IN Rotl(Xor4(A[src], D[sx + 1]), Rho[src])])
      E == [i \in 1..25 |->
             LET X == (i - 1) % 5 Y == (i - 1) \div 5 IN
             Xor4(Bl[i], AndNot4(Bl[5 * Y + ((X + 1) % 5) + 1], Bl[5 * Y + ((X + 2) % 5) + 1]))]
  IN TLCEval([i \in 1..25 |-> IF i = 1 THEN Xor4(E[1], RC[r]) ELSE E[i]])

KeccakF(A) == FoldLeft(LAMBDA s, r : Round(s, r), A, [r \in 1..24 |-> r])
=============================================================================
