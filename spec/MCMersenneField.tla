-------------------------- MODULE MCMersenneField --------------------------
(* Exhaustive check of MersenneField against integers modulo P for small P. *)
EXTENDS Integers, Sequences
CONSTANTS B, L, M
F == INSTANCE MersenneField
P == 2^M - 1
RECURSIVE ToInt(_, _)
ToInt(x, i) == IF i > L THEN 0 ELSE x[i] + 2^B * ToInt(x, i+1)
OfI(k) == F!OfInt(k)
VARIABLES a, b
Init == a \in 0..(P-1) /\ b \in 0..(P-1)
Next == UNCHANGED <<a, b>>
Val(x) == ToInt(x, 1)
Exact == LET x == OfI(a) y == OfI(b) IN
  /\ F!IsElem(x) /\ Val(x) = a
  /\ F!IsElem(F!Add(x, y)) /\ Val(F!Add(x, y)) = (a + b) % P
  /\ F!IsElem(F!Sub(x, y)) /\ Val(F!Sub(x, y)) = (a - b) % P
  /\ F!IsElem(F!Neg(x))    /\ Val(F!Neg(x)) = ((P - a) % P)
  /\ F!IsElem(F!Mul(x, y)) /\ Val(F!Mul(x, y)) = (a * b) % P
  /\ Val(F!Sum(<<x, y, x>>)) = (a + b + a) % P
  /\ Val(F!Dot(<<x, y>>, <<y, y>>)) = (a * b + b * b) % P
  /\ Val(OfI(a + P * b)) = a
  /\ Val(F!OfDigits(<<a % 10, b % 10, (a + b) % 10>>, 10)) = ((a % 10) * 100 + (b % 10) * 10 + ((a + b) % 10)) % P
  /\ (~F!IsElem(F!PLimbs)) /\ F!Canon(F!PLimbs) = F!Zero
=============================================================================
