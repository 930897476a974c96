------------------------------- MODULE MCAes -------------------------------
EXTENDS Aes, TLC
\* FIPS 197, appendices B and C.1.
ASSUME AesP!Encrypt(<<43,126,21,22,40,174,210,166,171,247,21,136,9,207,79,60>>,
                    <<50,67,246,168,136,90,48,141,49,49,152,162,224,55,7,52>>)
       = <<57,37,132,29,2,220,9,251,220,17,133,151,25,106,11,50>>
ASSUME AesP!Encrypt([i \in 1..16 |-> i - 1], [i \in 1..16 |-> (i - 1) * 17])
       = <<105,196,224,216,106,123,4,48,216,205,183,128,112,180,197,90>>
\* The S-box is the permutation of FIPS 197.
ASSUME {AesP!SBox[i] : i \in 1..256} = 0..255 /\ AesP!Sub(0) = 99 /\ AesP!Sub(83) = 237
VARIABLES k, b
Init == k \in 0..5 /\ b \in 0..5
Next == UNCHANGED <<k, b>>
Agree == LET key == [i \in 1..16 |-> (i * 37 * (k + 1) + k * 101) % 256]
             blk == [i \in 1..16 |-> (i * 91 * b + b * b * 7) % 256]
         IN AesEncrypt(key, blk) = AesP!Encrypt(key, blk)
=============================================================================
