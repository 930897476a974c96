-------------------------------- MODULE Lists --------------------------------
(* Streams of units between parties: bytes and field elements, and lists    *)
(* preceded by their length.                                                *)
EXTENDS Integers, Sequences, Rss61
IsByte(u) == Len(u) = 1 /\ u[1] \in 0..255
Unit(u) == IsByte(u) \/ elem61(u)
\* A list preceded by its length in 4 bytes, at position a of the stream s:
\* the position after it, or 0 if there is none.
LenAt(s, a) == s[a][1] + 256 * s[a+1][1] + 65536 * s[a+2][1] + 16777216 * s[a+3][1]
HasLen(s, a) == /\ a + 3 <= Len(s) /\ \A b \in a..(a + 3) : IsByte(s[b])
                /\ s[a+3][1] < 64
ListEnd(s, a) == IF HasLen(s, a) /\ a + 3 + LenAt(s, a) <= Len(s)
                    /\ \A b \in (a + 4)..(a + 3 + LenAt(s, a)) : elem61(s[b])
                 THEN a + 4 + LenAt(s, a) ELSE 0

Count(s, v) == Len(SelectSeq(s, LAMBDA x : x = v))
SameElements(a, b) == \/ a = b
                      \/ /\ Len(a) = Len(b)
                         /\ \A k \in 1..Len(a) : Count(a, a[k]) = Count(b, a[k])
=============================================================================
