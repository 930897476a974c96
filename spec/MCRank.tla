------------------------------- MODULE MCRank -------------------------------
(***************************************************************************)
(* The elimination of Rank.tla decides independence: over the field with Q *)
(* elements, for every matrix of at most R deals of at most C values, it    *)
(* agrees with the definition (some coefficients, not all zero, give the   *)
(* same combination in every deal).                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Q, R, C
VARIABLE m
sub(a, b) == ((a - b) + Q) % Q
mul(a, b) == (a * b) % Q
INSTANCE Rank WITH Minus2 <- sub, Times2 <- mul, Zero0 <- 0, One1 <- 1

E == 0..(Q - 1)
RECURSIVE Comb(_, _, _)
Comb(a, row, c) == IF c = 0 THEN 0 ELSE (Comb(a, row, c - 1) + mul(a[c], row[c])) % Q
Related(deals) ==
  \E a \in [1..Len(deals[1]) -> E] :
     /\ \E c \in DOMAIN a : a[c] # 0
     /\ \E v \in E : \A k \in 1..Len(deals) : Comb(a, deals[k], Len(deals[k])) = v

Init == \E r \in 1..R : \E c \in 1..C : m \in [1..r -> [1..c -> E]]
Next == UNCHANGED m
Seqs == [k \in DOMAIN m |-> [c \in DOMAIN m[k] |-> m[k][c]]]
Agrees == Independent(Seqs) <=> ~Related(Seqs)
=============================================================================
