------------------------------- MODULE MCInv2 -------------------------------
(***************************************************************************)
(* The inverse of an odd v modulo 2^K by Newton's iteration, on words of W *)
(* bits (K <= W): starting from 3 v XOR 2, which is right in five bits,    *)
(* every step doubles the number of right bits.  All v, all K.             *)
(*   Variant: "right"; "early": the loop ends when K - 1 bits are right;   *)
(*   "start": the first approximation is taken to be right in six bits.    *)
(***************************************************************************)
EXTENDS Integers, TLC
CONSTANTS W, Variant
RECURSIVE Pow(_)
Pow(k) == IF k = 0 THEN 1 ELSE 2 * Pow(k - 1)
M == Pow(W)
flip2(x) == IF (x \div 2) % 2 = 1 THEN x - 2 ELSE (x + 2) % M
VARIABLES v, k, z, bits, pc
vars == <<v, k, z, bits, pc>>
Init == /\ v \in {x \in 0..(M - 1) : x % 2 = 1} /\ k \in 1..W
        /\ z = flip2((3 * v) % M) /\ bits = (IF Variant = "start" THEN 6 ELSE 5) /\ pc = "loop"
Goes == IF Variant = "early" THEN bits < k - 1 ELSE bits <= k
Step == /\ pc = "loop" /\ Goes
        /\ z' = (z * ((2 + M - ((v * z) % M)) % M)) % M /\ bits' = 2 * bits /\ UNCHANGED <<v, k, pc>>
Stop == pc = "loop" /\ ~Goes /\ pc' = "done" /\ UNCHANGED <<v, k, z, bits>>
Done == pc = "done" /\ UNCHANGED vars
Next == Step \/ Stop \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* the bits announced are right, and at the end all k are
min(a, b) == IF a < b THEN a ELSE b
Right == (v * z) % Pow(min(bits, W)) = 1
Inverse == pc = "done" => (v * z) % Pow(k) = 1
Ends == <>(pc = "done")
=============================================================================
