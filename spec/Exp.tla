-------------------------------- MODULE Exp ---------------------------------
(***************************************************************************)
(* The experiments (C25): what each party sends to each party, in bytes.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Choose(_, _)
Choose(a, b) == IF b < 0 \/ b > a THEN 0 ELSE IF b = 0 THEN 1 ELSE (Choose(a - 1, b - 1) * a) \div b
Byte8 == 8

Threshold(n) == (n - 1) \div 3
InU(n, i) == i <= 2 * Threshold(n)
InT(n, i) == i < n - Threshold(n)

\* elements i sends to j in the multiplication of m pairs of values
MultElems(n, m, i, j) == m * ((IF j = 0 /\ InU(n, i) THEN 1 ELSE 0) + (IF i = 0 /\ InT(n, j) THEN 1 ELSE 0))

\* Messages are shared with threshold 2t; a component held by i and not by j
\* is sent by its first holder as a value for every party of 0..2t, by the
\* other holders as a digest.
Holders(n) == n - 2 * Threshold(n)
Values(n, i, j) == IF i = j THEN 0
                   ELSE IF j < i THEN Choose(n - 1 - i, Holders(n) - 1)
                   ELSE Choose(n - 2 - i, Holders(n) - 1)
Digests(n, i, j) == IF i = j THEN 0 ELSE Choose(n - 2, Holders(n) - 1) - Values(n, i, j)
CheckBytes(n, i, j) == 8 + Byte8 * ((2 * Threshold(n) + 1) * Values(n, i, j) + Digests(n, i, j))

\* a share of the key, then the values of party 0
InputElems(n, m, i, j) == Choose(n - 1, Threshold(n)) + (IF i = 0 THEN m ELSE 0)

\* the possible numbers of bytes (a party need not send itself empty lists)
Bytes(x, n, m, i, j) ==
  CASE x = "mult"  -> {Byte8 * MultElems(n, m, i, j)}
    [] x = "check" -> {Byte8 * MultElems(n, m, i, j) + CheckBytes(n, i, j)}
                      \cup (IF i = j THEN {Byte8 * MultElems(n, m, i, j)} ELSE {})
    [] x = "input" -> {Byte8 * InputElems(n, m, i, j)}

Limit(x) == IF x = "input" THEN 1000000 ELSE 100000
Supported(n) == n \in 4..16
=============================================================================
