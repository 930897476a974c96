------------------------------- MODULE MCMat -------------------------------
(* Laws that tie the operators of Mat together, over shapes and contents    *)
(* near the modulus.                                                        *)
EXTENDS Mat, TLC
VARIABLES m, r, c, d, s
Init == m \in {61, 127} /\ r \in 1..3 /\ c \in 1..3 /\ d \in 1..3 /\ s \in 0..2
Next == UNCHANGED <<m, r, c, d, s>>
El(k) == IF k % 3 = 0 THEN FOfInt(m, k) ELSE IF k % 3 = 1 THEN FNeg(m, FOfInt(m, k)) ELSE FMul(m, FOfInt(m, 8191 + k), FNeg(m, FOfInt(m, 77777 * k + 1)))
Gen(x, rr, cc) == Build(rr, cc, LAMBDA i, j : El(x * 7 + i * 5 + j * 11 + s))
T(a) == Build(a.c, a.r, LAMBDA i, j : a.v[j][i])
Id(n) == Build(n, n, LAMBDA i, j : IF i = j THEN FOne(m) ELSE FZero(m))
Laws ==
  LET A == Gen(1, r, c) B == Gen(2, r, c) C == Gen(3, c, d) k == El(r + c + s) IN
  /\ IsMat(m, A) /\ IsMat(m, Product(m, A, C)) /\ Shape(Product(m, A, C)) = <<r, d>>
  /\ Product(m, ZipMat(m, "add", A, B), C) = ZipMat(m, "add", Product(m, A, C), Product(m, B, C))
  /\ ZipMat(m, "sub", ZipMat(m, "add", A, B), B) = A
  /\ Product(m, ScaleMat(m, A, k), C) = ScaleMat(m, Product(m, A, C), k)
  /\ T(Product(m, A, C)) = Product(m, T(C), T(A))
  /\ Product(m, A, Id(c)) = A /\ Product(m, Id(r), A) = A
  /\ SubMat(Product(m, A, C), <<0, 1, 0, d>>) = Product(m, SubMat(A, <<0, 1, 0, c>>), C)
  \* a Vandermonde matrix evaluates polynomials
  /\ LET al == [i \in 1..r |-> El(i + s)] V == Vander(m, al, c) IN
     \A i \in 1..r : Product(m, V, C).v[i][1] =
        FSum(m, [j \in 1..c |-> FMul(m, Power(m, al[i], j - 1), C.v[j][1])])
=============================================================================
