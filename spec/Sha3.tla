-------------------------------- MODULE Sha3 --------------------------------
(***************************************************************************)
(* SHA3-256/384/512: the sponge over Keccak-f[1600].  java/Sha3.java       *)
(* overrides Permute; MCSha3 checks that it agrees with the definition in  *)
(* Sha3Pure and that the digests are those of the published vectors.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise, Eager
SP == INSTANCE Sha3Pure
Permute(A) == SP!KeccakF(A)

Rate(bits) == 200 - 2 * (bits \div 8)          \* in bytes
\* pad10*1 with the SHA-3 suffix 01
Pad(msg, rate) ==
  LET q == rate - (Len(msg) % rate) IN
  msg \o (IF q = 1 THEN <<134>>
          ELSE <<6>> \o [i \in 1..(q - 2) |-> 0] \o <<128>>)
LaneOf(bytes, at) == [j \in 1..4 |-> bytes[at + 2 * j - 1] + 256 * bytes[at + 2 * j]]
AbsorbOne(A, block, rate) ==
  Permute(TLCEval([i \in 1..25 |->
    IF i <= rate \div 8 THEN SP!Xor4(A[i], LaneOf(block, 8 * (i - 1))) ELSE A[i]]))
ZeroState == [i \in 1..25 |-> <<0, 0, 0, 0>>]
Absorb(padded, rate) ==
  FoldLeft(LAMBDA A, k : AbsorbOne(A, SubSeq(padded, (k - 1) * rate + 1, k * rate), rate),
           ZeroState, [k \in 1..(Len(padded) \div rate) |-> k])
Squeeze(A, nbytes) == [i \in 1..nbytes |->
  LET limb == A[((i - 1) \div 8) + 1][(((i - 1) % 8) \div 2) + 1]
  IN  IF i % 2 = 1 THEN limb % 256 ELSE limb \div 256]
Digest(bits, msg) == Squeeze(TLCEval(Absorb(TLCEval(Pad(msg, Rate(bits))), Rate(bits))), bits \div 8)
=============================================================================
