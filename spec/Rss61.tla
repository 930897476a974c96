------------------------------- MODULE Rss61 -------------------------------
(* The sharing scheme over the field of the protocols, and values in traces. *)
EXTENDS Field, FiniteSets, TLC
plus61(a, b)  == FAdd(61, a, b)
minus61(a, b) == FSub(61, a, b)
times61(a, b) == FMul(61, a, b)
sum61(s)      == FSum(61, s)
elem61(v)     == FIsElem(61, v)
INSTANCE Rss WITH Plus <- plus61, Minus <- minus61, Times <- times61,
                  SumOf <- sum61, Nil <- F61!Zero, IsVal <- elem61
\* Sharings are recorded as sequences indexed by party + 1.
Sharing(T, s) == [p \in Parties(T) |-> s[p+1]]
ShapedSeq(T, s) == Len(s) = T.n /\ \A p \in 1..T.n :
                     Len(s[p]) = T.size /\ \A j \in 1..T.size : elem61(s[p][j])
SharingOf(T, s, v) == ShapedSeq(T, s) /\ LET f == Sharing(T, s) IN Consistent(T, f) /\ Value(T, f) = v
IsASharing(T, s) == ShapedSeq(T, s) /\ Consistent(T, Sharing(T, s))
ValueOf(T, s) == Value(T, Sharing(T, s))
Indep == INSTANCE Rank WITH Minus2 <- minus61, Times2 <- times61, Zero0 <- F61!Zero, One1 <- F61!One

\* No byte of a value shows another one, or a constant: over several deals, each
\* a sequence of values, every byte changes, and no two are always the same (but
\* for the lowest and the highest: a value is the remainder of 64 bits, and has 61).
ByteOf(v, k) == LET i == (8 * k) \div 13
                IN ((v[i + 1] + (IF i < 4 THEN 8192 * v[i + 2] ELSE 0)) \div (2 ^ ((8 * k) % 13))) % 256
Deals == 8
OpaqueDeals(deals) ==
  With(deals, LAMBDA ds :
    With(IF Len(ds[1]) < 24 THEN Len(ds[1]) ELSE 24, LAMBDA cols :
      With({[a \in 1..Deals |-> ByteOf(ds[a][c], k)] : c \in 1..cols, k \in 1..6}, LAMBDA bytes :
        /\ Cardinality(bytes) = 6 * cols
        /\ \A c \in 1..cols : \A k \in 0..7 : \E a \in 2..Deals : ByteOf(ds[a][c], k) # ByteOf(ds[1][c], k))))
=============================================================================
