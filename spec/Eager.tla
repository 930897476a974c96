------------------------------- MODULE Eager -------------------------------
(* Functions that TLC computes once instead of at every application:        *)
(* EagerSeq(n, F) = [i \in 1..n |-> F(i)],  EagerFcn(S, F) = [x \in S |-> F(x)], *)
(* With(v, F) = F(v).                                                        *)
EXTENDS Integers, Sequences, SequencesExt, TLC
EagerSeq(n, F(_)) == FoldLeft(LAMBDA acc, i : Append(acc, F(i)), <<>>, [i \in 1..n |-> i])
EagerFcn(S, F(_)) == FoldLeft(LAMBDA acc, x : acc @@ (x :> F(x)), <<>>, SetToSeq(S))
With(v, F(_)) == CHOOSE r \in {F(x) : x \in {TLCEval(v)}} : TRUE
=============================================================================
