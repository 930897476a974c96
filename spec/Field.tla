------------------------------- MODULE Field -------------------------------
(***************************************************************************)
(* The two prime fields of the code: m = 61 is Mp61, m = 127 is Mp127.     *)
(* java/Field.java overrides the operators of this module with a faster    *)
(* implementation; MCFieldOverride checks that both agree.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

F61  == INSTANCE MersenneField WITH B <- 13, L <- 5,  M <- 61
F127 == INSTANCE MersenneField WITH B <- 13, L <- 10, M <- 127

FAdd(m, x, y) == IF m = 61 THEN F61!Add(x, y) ELSE F127!Add(x, y)
FSub(m, x, y) == IF m = 61 THEN F61!Sub(x, y) ELSE F127!Sub(x, y)
FNeg(m, x)    == IF m = 61 THEN F61!Neg(x)    ELSE F127!Neg(x)
FMul(m, x, y) == IF m = 61 THEN F61!Mul(x, y) ELSE F127!Mul(x, y)
FSum(m, s)    == IF m = 61 THEN F61!Sum(s)    ELSE F127!Sum(s)
FDot(m, s, u) == IF m = 61 THEN F61!Dot(s, u) ELSE F127!Dot(s, u)
FIsElem(m, x) == IF m = 61 THEN F61!IsElem(x) ELSE F127!IsElem(x)
FZero(m)      == IF m = 61 THEN F61!Zero      ELSE F127!Zero
FOne(m)       == IF m = 61 THEN F61!One       ELSE F127!One
FOfInt(m, k)  == IF m = 61 THEN F61!OfInt(k)  ELSE F127!OfInt(k)
FOfDigits(m, ds, r) == IF m = 61 THEN F61!OfDigits(ds, r) ELSE F127!OfDigits(ds, r)
=============================================================================
