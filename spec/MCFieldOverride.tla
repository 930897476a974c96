-------------------------- MODULE MCFieldOverride --------------------------
(* The Java override of Field agrees with the TLA+ definitions.            *)
EXTENDS Field, TLC
Pool(L, TM) ==
  { [i \in 1..L |-> IF i = L THEN TM ELSE 8191],                       \* P: not an element
    [i \in 1..L |-> IF i = L THEN TM ELSE IF i = 1 THEN 8190 ELSE 8191], \* P-1
    [i \in 1..L |-> IF i = L THEN TM ELSE IF i = 1 THEN 8189 ELSE 8191],
    [i \in 1..L |-> 0], [i \in 1..L |-> IF i = 1 THEN 1 ELSE 0],
    [i \in 1..L |-> IF i = 1 THEN 2 ELSE 0],
    [i \in 1..L |-> IF i = L THEN 1 ELSE 0],
    [i \in 1..L |-> IF i = L THEN TM ELSE 0],
    [i \in 1..L |-> IF i = L THEN 0 ELSE 8191],
    [i \in 1..L |-> (i * 2741 + 77) % (IF i = L THEN TM ELSE 8192)],
    [i \in 1..L |-> (i * 6007 + 4099) % (IF i = L THEN TM ELSE 8192)],
    [i \in 1..L |-> (i * 3571 * 5 + 1023) % (IF i = L THEN TM ELSE 8192)] }
VARIABLES m, x, y
Init == /\ m \in {61, 127}
        /\ x \in (IF m = 61 THEN Pool(5, 511) ELSE Pool(10, 1023))
        /\ y \in (IF m = 61 THEN Pool(5, 511) ELSE Pool(10, 1023))
Next == UNCHANGED <<m, x, y>>
Agree ==
  LET P(op61, op127) == IF m = 61 THEN op61 ELSE op127 IN
  /\ FIsElem(m, x) = P(F61!IsElem(x), F127!IsElem(x))
  /\ FIsElem(m, x) /\ FIsElem(m, y) =>
     /\ FAdd(m, x, y) = P(F61!Add(x, y), F127!Add(x, y))
     /\ FSub(m, x, y) = P(F61!Sub(x, y), F127!Sub(x, y))
     /\ FNeg(m, x)    = P(F61!Neg(x), F127!Neg(x))
     /\ FMul(m, x, y) = P(F61!Mul(x, y), F127!Mul(x, y))
     /\ FSum(m, <<x, y, x>>) = P(F61!Sum(<<x, y, x>>), F127!Sum(<<x, y, x>>))
     /\ FDot(m, <<x, y>>, <<y, y>>) = P(F61!Dot(<<x, y>>, <<y, y>>), F127!Dot(<<x, y>>, <<y, y>>))
     /\ \A k \in {0, 1, 8191, 8192, 536870911} : FOfInt(m, k) = P(F61!OfInt(k), F127!OfInt(k))
     /\ \A r \in {10, 256} : \E ds \in {[i \in 1..(4 * Len(x)) |-> (x[((i - 1) % Len(x)) + 1] + i * y[1]) % r]} :
          FOfDigits(m, ds, r) = P(F61!OfDigits(ds, r), F127!OfDigits(ds, r))
=============================================================================
