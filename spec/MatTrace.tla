------------------------------ MODULE MatTrace ------------------------------
(* Trace specification of the vectors and matrices (C16).  regs holds the   *)
(* matrices of the program; an operation changes its target only.           *)
EXTENDS TraceBase, Mat
VARIABLE regs
m == Ev.m
A == regs[Ev.a]
B == regs[Ev.b]
Is1(res, x) == res.ok /\ res.v = x
Keep == UNCHANGED regs
MNew == /\ Is("mnew") /\ Keep
        /\ IF Ev.r = 0 \/ Ev.c = 0 THEN ~Ev.res.ok
           ELSE Is1(Ev.res, Build(Ev.r, Ev.c, LAMBDA i, j : FZero(m)))
MSet == Is("mset") /\ Holds(IsMat(m, Ev.v)) /\ regs' = (Ev.o :> Ev.v) @@ regs
MPeek == Is("mpeek") /\ Ev.v = regs[Ev.o] /\ Keep
MBin == /\ Is("mbin") /\ Keep /\ Ev.a2 = A /\ Ev.b2 = B
        /\ IF Shape(A) = Shape(B) THEN Is1(Ev.res, ZipMat(m, Ev.op, A, B)) ELSE ~Ev.res.ok
MInto == /\ Is("minto")
         /\ IF Shape(A) = Shape(B)
            THEN \E z \in {ZipMat(m, Ev.op, A, B)} :
                   /\ Is1(Ev.res, z) /\ Ev.a2 = z /\ Ev.same
                   /\ Ev.b2 = (IF Ev.a = Ev.b THEN z ELSE B)
                   /\ regs' = [regs EXCEPT ![Ev.a] = z]
            ELSE ~Ev.res.ok /\ Ev.a2 = A /\ Ev.b2 = B /\ Keep
MScale == Is("mscale") /\ Is1(Ev.res, ScaleMat(m, A, Ev.k)) /\ Ev.a2 = A /\ Keep
MScaleBy == /\ Is("mscaleby")
            /\ \E z \in {ScaleMat(m, A, Ev.k)} :
                 Is1(Ev.res, z) /\ Ev.a2 = z /\ regs' = [regs EXCEPT ![Ev.a] = z]
MMatMul == /\ Is("mmatmul") /\ Keep /\ Ev.a2 = A /\ Ev.b2 = B
           /\ IF A.c = B.r THEN Is1(Ev.res, Product(m, A, B)) ELSE ~Ev.res.ok
MSub == /\ Is("msub") /\ Keep /\ Ev.a2 = A
        /\ IF SubOk(A, Ev.q) THEN Is1(Ev.res, SubMat(A, Ev.q)) ELSE ~Ev.res.ok
IsDecimal(ds, x) == /\ Len(ds) >= 1 /\ (Len(ds) > 1 => ds[1] # 0) /\ \A i \in 1..Len(ds) : ds[i] \in 0..9
                    /\ FOfDigits(m, ds, 10) = x
MText == /\ Is("mtext") /\ Keep /\ Len(Ev.lines) = A.r
         /\ Holds(\A i \in 1..A.r :
              LET ln == Ev.lines[i] IN
              /\ ln.open /\ ln.close /\ ln.len = Ev.lines[1].len
              /\ Len(ln.t) = A.c /\ \A j \in 1..A.c : IsDecimal(ln.t[j], A.v[i][j]))
MCell == Is("mcell") /\ Keep /\ Ev.v = Build(Ev.r, Ev.c, LAMBDA i, j : FOfInt(m, 100 * (i - 1) + j - 1))
Vand == /\ Is("vand") /\ Keep
        /\ IF Len(Ev.al) = 0 \/ Ev.c = 0 THEN ~Ev.res.ok ELSE Is1(Ev.res, Vander(m, Ev.al, Ev.c))
VandOff == /\ Is("vandoff") /\ Keep
           /\ IF Ev.r = 0 \/ Ev.c = 0 THEN ~Ev.res.ok
              ELSE Is1(Ev.res, Vander(m, EagerSeq(Ev.r, LAMBDA i : FAdd(m, Ev.base, FOfInt(m, i - 1))), Ev.c))
ops == <<"add", "sub", "mul">>
Vec == /\ Is("vec") /\ Keep /\ Ev.a2 = Ev.a /\ Ev.b2 = Ev.b
       /\ LET a == Ev.a b == Ev.b fit == Len(a) = Len(b) res == <<Ev.add, Ev.sub, Ev.mul>> IN
          /\ \A i \in 1..3 :
               IF fit THEN /\ Is1(res[i], ZipV(m, ops[i], a, b))
                           /\ Is1(Ev.into[i].res, ZipV(m, ops[i], a, b))
                           /\ Ev.into[i].left = ZipV(m, ops[i], a, b) /\ Ev.into[i].same
               ELSE ~res[i].ok /\ ~Ev.into[i].res.ok /\ Ev.into[i].left = a
          /\ \A i \in 1..3 : /\ Is1(Ev.self[i].res, ZipV(m, ops[i], a, a))
                             /\ Ev.self[i].left = ZipV(m, ops[i], a, a) /\ Ev.self[i].same
          /\ IF fit THEN Is1(Ev.dot, FDot(m, a, b)) ELSE ~Ev.dot.ok
          /\ Is1(Ev.dots, FDot(m, a, a))
          /\ Ev.scale = ScaleV(m, a, Ev.k) /\ Ev.scaleby = Ev.scale
          /\ Ev.own = (IF Len(a) = 0 THEN a ELSE ScaleV(m, a, a[Ev.at + 1]))
          /\ Ev.sum = FSum(m, a) /\ Ev.back = a /\ Ev.clean
VText == /\ Is("vtext") /\ Keep /\ Ev.open /\ Ev.close
         /\ LET k == Len(Ev.a) s == IF k > 5 THEN 5 ELSE k IN
            /\ Len(Ev.t) = s /\ Ev.more = k - s
            /\ \A i \in 1..s : IsDecimal(Ev.t[i], Ev.a[i])
Init == l = 1 /\ regs = <<>>
Next == MNew \/ MSet \/ MPeek \/ MBin \/ MInto \/ MScale \/ MScaleBy \/ MMatMul \/ MSub \/ MText \/ MCell
        \/ Vand \/ VandOff \/ Vec \/ VText \/ (End /\ Keep)
View == l
=============================================================================
