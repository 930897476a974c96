----------------------------- MODULE FieldTrace -----------------------------
(* Trace specification of the two prime fields (C15).  Every value written  *)
(* by the code must be the canonical representation of the exact result.    *)
EXTENDS TraceBase, Field
VARIABLE x0     \* no state: every event is judged by itself
El(m, v) == FIsElem(m, v)
All(s, v) == \A i \in 1..Len(s) : s[i] = v
\* little-endian bytes as an element
RECURSIVE Rev(_, _)
Rev(s, i) == IF i = 0 THEN <<>> ELSE <<s[i]>> \o Rev(s, i - 1)
Bytes(m, bs) == FOfDigits(m, Rev(bs, Len(bs)), 256)
Decimal(m, ds) == FOfDigits(m, ds, 10)
Size(m) == IF m = 61 THEN 8 ELSE 16

Const == /\ Is("const") /\ Ev.dflt = FZero(Ev.m) /\ Ev.zero = FZero(Ev.m) /\ Ev.one = FOne(Ev.m)
         /\ Ev.c = Ev.want /\ Ev.size = Size(Ev.m) /\ Ev.bits = 8 * Size(Ev.m)
\* q is the quotient of x and y
Quot(m, q, x, y) == IF y = FZero(m) THEN ~q.ok
                    ELSE q.ok /\ El(m, q.v) /\ FMul(m, q.v, y) = x
Bin == /\ Is("bin")
       /\ LET m == Ev.m x == Ev.x y == Ev.y IN
          /\ El(m, x) /\ El(m, y) /\ x = Ev.a /\ y = Ev.b /\ Ev.x2 = x /\ Ev.y2 = y
          /\ All(Ev.add, FAdd(m, x, y)) /\ All(Ev.sub, FSub(m, x, y)) /\ All(Ev.mul, FMul(m, x, y))
          /\ \A i \in 1..Len(Ev.div) : Quot(m, Ev.div[i], x, y)
          /\ All(Ev.eq, x = y)
NoLeadingZero(ds) == Len(ds) = 1 \/ (Len(ds) > 1 /\ ds[1] # 0)
IsDigits(ds) == Len(ds) >= 1 /\ \A i \in 1..Len(ds) : ds[i] \in 0..9
Un == /\ Is("un")
      /\ LET m == Ev.m x == Ev.x IN
         /\ El(m, x) /\ x = Ev.a
         /\ All(Ev.neg, FNeg(m, x)) /\ All(Ev.dbl, FAdd(m, x, x)) /\ All(Ev.sq, FMul(m, x, x))
         /\ All(Ev.zero, FZero(m))
         /\ \A i \in 1..Len(Ev.inv) : Quot(m, Ev.inv[i], FOne(m), x)
         /\ \A i \in 1..Len(Ev.one) : Quot(m, Ev.one[i], x, x)
         /\ Ev.clean /\ Len(Ev.bytes) = Size(m) /\ All(Ev.back, x)
         \* the bytes are the little-endian integer, the text the decimal one;
         \* both denote the representative itself
         /\ Bytes(m, Ev.bytes) = x
         /\ IsDigits(Ev.text) /\ NoLeadingZero(Ev.text) /\ Decimal(m, Ev.text) = x
         /\ Len(Ev.text) <= (IF m = 61 THEN 19 ELSE 39)
         /\ Ev.stream = Ev.text
FromInt == /\ Is("int") /\ El(Ev.m, Ev.v) /\ Len(Ev.bytes) = Size(Ev.m) /\ Ev.v = Bytes(Ev.m, Ev.bytes)
Dec == /\ Is("dec") /\ El(Ev.m, Ev.v) /\ Ev.v = Decimal(Ev.m, Ev.digits)

Init == l = 1 /\ x0 = 0
Next == (Const \/ Bin \/ Un \/ FromInt \/ Dec \/ End) /\ UNCHANGED x0
View == l
=============================================================================
