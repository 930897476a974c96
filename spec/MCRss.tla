------------------------------- MODULE MCRss -------------------------------
(***************************************************************************)
(* Exhaustive check of the sharing scheme over Z_Q: two registers hold     *)
(* sharings; parties share secrets with arbitrary components, compute      *)
(* linear functions locally, and up to n-t-1 parties may replace their     *)
(* share of register 1 by anything before it is reconstructed.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Q, N, T0

Z == 0..(Q-1)
plus(a, b)  == (a + b) % Q
minus(a, b) == (a + Q - b) % Q
times(a, b) == (a * b) % Q
sumof(s)    == FoldLeft(plus, 0, s)
isval(v)    == v \in Z

INSTANCE Rss WITH Plus <- plus, Minus <- minus, Times <- times,
                  SumOf <- sumof, Nil <- 0, IsVal <- isval

T == TLCEval(Table(N, T0))
Comps == [1..T.comps -> Z]

VARIABLES secret,    \* register -> the value it stands for
          share,     \* register -> sharing
          bad        \* parties whose share of register 1 was replaced
vars == <<secret, share, bad>>

Zero0 == Deal(T, [c \in 1..T.comps |-> 0])
Init == /\ secret = [r \in 1..2 |-> 0] /\ share = [r \in 1..2 |-> Zero0]
        /\ bad = {}

Set(r, v, s) == /\ bad = {}
                    /\ secret' = [secret EXCEPT ![r] = v]
                    /\ share' = [share EXCEPT ![r] = s]
                    /\ UNCHANGED bad

ShareIt(r) == \E cs \in Comps : Set(r, sumof(cs), Deal(T, cs))
Linear(r)  == LET a == share[1] b == share[2] v == secret[1] w == secret[2] IN
  \/ Set(r, plus(v, w), AddS(T, a, b))
  \/ Set(r, minus(v, w), SubS(T, a, b))
  \/ \E c \in Z :
       \/ Set(r, plus(v, c), AddC(T, a, c))
       \/ Set(r, minus(v, c), SubC(T, a, c))
       \/ Set(r, minus(c, v), CSub(T, c, a))
       \/ Set(r, times(v, c), MulC(T, a, c))
Corrupt(p) == /\ Cardinality(bad \cup {p}) <= N - T0 - 1
              /\ p \notin bad
              /\ share[2] = Zero0
              /\ bad' = bad \cup {p}
              /\ \E x \in [1..T.size -> Z] :
                   share' = [share EXCEPT ![1][p] = x]
              /\ UNCHANGED secret
Next == \/ \E r \in 1..2 : ShareIt(r) \/ Linear(r)
        \/ \E p \in Parties(T) : Corrupt(p)

HonestCorrect == bad = {} => \A r \in 1..2 : IsSharingOf(T, share[r], secret[r])
\* Checked reconstruction: a value only from consistent shares.
Detect(s) == IF Consistent(T, s) THEN [ok |-> TRUE, v |-> Value(T, s)] ELSE [ok |-> FALSE]
NeverWrong == LET r == Detect(share[1]) IN r.ok => r.v = secret[1]
\* n-t colluding holders of one component can change the value: the bound is tight.
ThresholdHolds == Threshold(T)

\* Perfect secrecy: what t parties see is equally likely for every secret.
View(cs, S) == [c \in {c \in 1..T.comps : T.hold[c] \cap S # {}} |-> cs[c]]
ASSUME \A S \in SUBSET (0..(N-1)) : Cardinality(S) = T0 =>
  LET views == {View(cs, S) : cs \in Comps} IN
  \A v \in views : \A a, b \in Z :
     Cardinality({cs \in Comps : View(cs, S) = v /\ sumof(cs) = a}) =
     Cardinality({cs \in Comps : View(cs, S) = v /\ sumof(cs) = b})
=============================================================================
