-------------------------------- MODULE Mat --------------------------------
(***************************************************************************)
(* Vectors and matrices over a field: a matrix is [r, c, v] with v its     *)
(* sequence of rows.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, Field, Eager

Shape(a)   == <<a.r, a.c>>
IsMat(m, a) == /\ a.r >= 1 /\ a.c >= 1 /\ Len(a.v) = a.r
               /\ \A i \in 1..a.r : Len(a.v[i]) = a.c /\ \A j \in 1..a.c : FIsElem(m, a.v[i][j])
Build(r, c, F(_, _)) == [r |-> r, c |-> c, v |-> EagerSeq(r, LAMBDA i : EagerSeq(c, LAMBDA j : F(i, j)))]

Apply(m, op, x, y) == CASE op = "add" -> FAdd(m, x, y)
                        [] op = "sub" -> FSub(m, x, y)
                        [] op = "mul" -> FMul(m, x, y)
\* entry-wise; defined for equal shapes only
ZipMat(m, op, a, b)  == Build(a.r, a.c, LAMBDA i, j : Apply(m, op, a.v[i][j], b.v[i][j]))
ScaleMat(m, a, k) == Build(a.r, a.c, LAMBDA i, j : FMul(m, a.v[i][j], k))
Column(a, j)      == EagerSeq(a.r, LAMBDA i : a.v[i][j])
Product(m, a, b)  == Build(a.r, b.c, LAMBDA i, j : FDot(m, a.v[i], Column(b, j)))
\* rows q[1]..q[2]-1 and columns q[3]..q[4]-1, counted from 0
SubMat(a, q)      == Build(q[2] - q[1], q[4] - q[3], LAMBDA i, j : a.v[q[1] + i][q[3] + j])
SubOk(a, q)       == q[1] < q[2] /\ q[2] <= a.r /\ q[3] < q[4] /\ q[4] <= a.c
RECURSIVE Power(_, _, _)
Power(m, x, k)    == IF k = 0 THEN FOne(m) ELSE FMul(m, x, Power(m, x, k - 1))
Vander(m, al, c)  == Build(Len(al), c, LAMBDA i, j : Power(m, al[i], j - 1))

ZipV(m, op, a, b) == EagerSeq(Len(a), LAMBDA i : Apply(m, op, a[i], b[i]))
ScaleV(m, a, k)   == EagerSeq(Len(a), LAMBDA i : FMul(m, a[i], k))
=============================================================================
