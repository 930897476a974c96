------------------------------- MODULE MCSha3 -------------------------------
EXTENDS Sha3
\* Digests of the empty message and of "abc" (FIPS 202 examples).
ASSUME Digest(256, <<>>) =
  <<167,255,198,248,191,30,215,102,81,193,71,86,160,97,214,98,
    245,128,255,77,228,59,73,250,130,216,10,75,128,248,67,74>>
ASSUME Digest(256, <<97, 98, 99>>) =
  <<58,152,93,167,79,226,37,178,4,92,23,45,107,211,144,189,
    133,95,8,110,62,157,82,91,70,191,226,69,17,67,21,50>>
ASSUME SubSeq(Digest(512, <<97, 98, 99>>), 1, 8) = <<183,81,133,11,26,87,22,138>>
ASSUME SubSeq(Digest(384, <<97, 98, 99>>), 1, 8) = <<236,1,73,130,136,81,111,201>>
VARIABLE k
Init == k \in 0..7
Next == UNCHANGED k
St(j) == [i \in 1..25 |-> [b \in 1..4 |-> (i * 7919 * (j + 1) + b * 31337 * j + j * j * 12345) % 65536]]
Agree == Permute(St(k)) = SP!KeccakF(St(k))
=============================================================================
