------------------------------ MODULE MCMultTab ------------------------------
(* Local multiplication, on all pairs of components of all listed (n, d):     *)
(* it is bilinear, so this covers every pair of shared values.                *)
EXTENDS RssTab, TLC
CONSTANT Cfgs
CfgsQ == {<<3,1>>, <<4,1>>, <<5,1>>, <<5,2>>, <<6,1>>, <<6,2>>, <<7,1>>, <<7,2>>, <<7,3>>, <<8,2>>, <<9,2>>}
CfgsS == {<<9,2>>}
CfgsT == {<<3,1>>, <<4,1>>, <<5,1>>, <<5,2>>, <<6,1>>, <<6,2>>, <<7,1>>, <<7,2>>, <<7,3>>, <<8,2>>, <<8,3>>, <<9,2>>, <<9,3>>, <<9,4>>, <<10,3>>}
plus(a, b) == a + b
minus(a, b) == a - b
times(a, b) == a * b
sumof(s) == FoldLeft(plus, 0, s)
isval(v) == v \in Nat
R == INSTANCE Rss WITH Plus <- plus, Minus <- minus, Times <- times,
                       SumOf <- sumof, Nil <- 0, IsVal <- isval
TabT == Tables(Cfgs)
TabD == Tables({<<c[1], 2 * c[2]>> : c \in Cfgs})
T(c) == TabT[c]
D(c) == TabD[<<c[1], 2 * c[2]>>]
VARIABLES cfg, i, j
Init == /\ cfg \in Cfgs /\ i \in 1..T(cfg).comps /\ j \in 1..T(cfg).comps
Next == UNCHANGED <<cfg, i, j>>
RightFor(t, d, c) ==
  /\ c \in 1..d.comps
  /\ d.hold[c] \subseteq t.hold[i] \cap t.hold[j]      \* every holder can compute it
  /\ d.first[c] < 2 * t.t + 1                          \* owned by one of the first 2d+1
  /\ c = R!Target(t, d, j, i)
  \* the owner is the first common holder
  /\ \A p \in t.hold[i] \cap t.hold[j] : d.first[c] <= p
Right == \E c \in {R!Target(T(cfg), D(cfg), i, j)} : RightFor(T(cfg), D(cfg), c)
ASSUME \A c \in Cfgs : Threshold(T(c)) /\ Threshold(D(c))
=============================================================================
