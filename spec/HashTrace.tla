----------------------------- MODULE HashTrace -----------------------------
(* Trace specification of the hash (C14): an object is the message fed so   *)
(* far; finalizing returns its digest and ends the object.                  *)
EXTENDS TraceBase, Sha3
VARIABLE objs
Init == l = 1 /\ objs = <<>>
Drop(o) == [x \in DOMAIN objs \ {o} |-> objs[x]]
New == Is("new") /\ objs' = (Ev.o :> [bits |-> Ev.bits, msg |-> <<>>]) @@ objs
Cpy == Is("copy") /\ objs' = (Ev.o :> objs[Ev.from]) @@ objs
Upd == Is("upd") /\ objs' = [objs EXCEPT ![Ev.o].msg = @ \o Ev.bytes]
\* bytes given by a rule: i * p + i \div 256 + q at position i (from 0)
UpdRule == Is("updrule") /\ objs' = [objs EXCEPT ![Ev.o].msg =
             @ \o TLCEval([i \in 1..(Ev.to - Ev.from) |-> ((Ev.from + i - 1) * Ev.p + (Ev.from + i - 1) \div 256 + Ev.q) % 256])]
Fin == /\ Is("fin")
       /\ Ev.digest = Digest(objs[Ev.o].bits, objs[Ev.o].msg)
       /\ objs' = Drop(Ev.o)
\* Known answers, computed with another implementation: the digests of 2^32 + 13 zero bytes.
ZeroDigest(bits) ==
  CASE bits = 256 -> <<208, 10, 35, 187, 251, 37, 52, 130, 129, 198, 13, 205, 116, 17, 150, 123, 144, 152, 81, 219, 210, 106, 249, 51, 109, 39, 168, 151, 158, 97, 167, 229>>
    [] bits = 384 -> <<199, 206, 54, 202, 223, 226, 125, 53, 58, 46, 223, 17, 107, 5, 1, 162, 219, 212, 92, 203, 156, 50, 15, 162, 217, 143, 139, 123, 44, 51, 68, 17, 205, 35, 40, 133, 123, 200, 6, 206, 243, 131, 119, 113, 67, 132, 131, 85>>
    [] bits = 512 -> <<203, 229, 233, 23, 132, 15, 183, 142, 173, 0, 54, 248, 110, 123, 235, 34, 155, 61, 84, 245, 228, 76, 170, 192, 36, 205, 5, 13, 114, 98, 107, 18, 85, 228, 65, 12, 93, 174, 191, 110, 98, 183, 57, 244, 38, 1, 18, 204, 133, 38, 122, 66, 62, 36, 121, 71, 224, 52, 221, 79, 224, 125, 77, 63>>
Huge == Is("huge") /\ Ev.digest = ZeroDigest(Ev.bits) /\ UNCHANGED objs
Next == Huge \/ New \/ Cpy \/ Upd \/ UpdRule \/ Fin \/ (End /\ UNCHANGED objs)
View == l
=============================================================================
