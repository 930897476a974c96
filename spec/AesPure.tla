------------------------------ MODULE AesPure ------------------------------
(***************************************************************************)
(* AES-128 encryption of one block (FIPS 197), on sequences of 16 bytes.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise, Eager

XorAll(s) == FoldLeft(LAMBDA a, b : a ^^ b, 0, s)
XTime(b) == LET d == 2 * b IN IF d > 255 THEN (d - 256) ^^ 27 ELSE d
RECURSIVE GMul(_, _)
GMul(a, b) == IF b = 0 THEN 0
              ELSE (IF b % 2 = 1 THEN a ELSE 0) ^^ GMul(XTime(a), b \div 2)
Inv(b) == IF b = 0 THEN 0 ELSE CHOOSE c \in 1..255 : GMul(b, c) = 1
Rot8(b, k) == ((b * 2^k) % 256) + ((b * 2^k) \div 256)
SubByte(b) == LET i == Inv(b) IN
  XorAll(<<i, Rot8(i, 1), Rot8(i, 2), Rot8(i, 3), Rot8(i, 4), 99>>)
SBox == EagerSeq(256, LAMBDA i : SubByte(i - 1))
Sub(b) == SBox[b + 1]

XorSeq(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]

\* Key expansion: words W[0..43] of four bytes.
RECURSIVE Expand(_, _)
Expand(ws, rcon) ==
  IF Len(ws) = 44 THEN ws
  ELSE LET i == Len(ws) prev == ws[i]
           t == IF i % 4 # 0 THEN prev
                ELSE << Sub(prev[2]) ^^ rcon, Sub(prev[3]), Sub(prev[4]), Sub(prev[1]) >>
       IN Expand(Append(ws, TLCEval(XorSeq(ws[i - 3], t))),
                 IF i % 4 = 0 THEN XTime(rcon) ELSE rcon)
RoundKeys(key) ==
  LET ws == Expand([w \in 1..4 |-> SubSeq(key, 4 * w - 3, 4 * w)], 1)
  IN  [r \in 1..11 |-> ws[4*r - 3] \o ws[4*r - 2] \o ws[4*r - 1] \o ws[4*r]]

\* The state is column major: byte of row r, column c at 4c + r + 1.
SubShift(s) == [i \in 1..16 |->
  LET r == (i - 1) % 4 c == (i - 1) \div 4
  IN  Sub(s[4 * ((c + r) % 4) + r + 1])]
MixColumn(c) == <<
  XorAll(<<XTime(c[1]), XTime(c[2]), c[2], c[3], c[4]>>),
  XorAll(<<c[1], XTime(c[2]), XTime(c[3]), c[3], c[4]>>),
  XorAll(<<c[1], c[2], XTime(c[3]), XTime(c[4]), c[4]>>),
  XorAll(<<XTime(c[1]), c[1], c[2], c[3], XTime(c[4])>>) >>
Mix(s) == MixColumn(SubSeq(s, 1, 4)) \o MixColumn(SubSeq(s, 5, 8))
          \o MixColumn(SubSeq(s, 9, 12)) \o MixColumn(SubSeq(s, 13, 16))

Encrypt(key, block) ==
  LET rk == TLCEval(RoundKeys(key))
      mid == FoldLeft(LAMBDA s, r : TLCEval(XorSeq(Mix(SubShift(s)), rk[r])),
                      TLCEval(XorSeq(block, rk[1])), <<2, 3, 4, 5, 6, 7, 8, 9, 10>>)
  IN  XorSeq(SubShift(mid), rk[11])
=============================================================================
