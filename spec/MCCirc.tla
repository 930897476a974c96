------------------------------- MODULE MCCirc -------------------------------
(***************************************************************************)
(* Whole computations over Z_Q: every party goes through the same phases   *)
(* (inputs with their setup, local operations, batches of multiplications, *)
(* check phases) with any speed, over one stream for each ordered pair of  *)
(* parties in which nothing tells one phase from another.  Sending does    *)
(* not wait.  Keys and correlated randomness are fixed numbers; what is    *)
(* enumerated is the order of the parties' steps.                          *)
(*   Variant: "right"                                                      *)
(*     "unread"  parties without inputs do not wait for those of others    *)
(*     "short"   the first party leaves out the last share                 *)
(*     "last"    the check phase covers the last batch only                *)
(***************************************************************************)
EXTENDS RssTab, TLC
CONSTANTS N, D0, Q, Phases, Variant
P == 0..(N-1)
U == 0..(2 * D0)
InT(p) == p < N - D0
T == TLCEval(Table(N, D0))
D == TLCEval(Table(N, 2 * D0))
plus(a, b)  == (a + b) % Q
minus(a, b) == (a + Q - b) % Q
times(a, b) == (a * b) % Q
sumof(s) == FoldLeft(plus, 0, s)
isval(v) == v \in 0..(Q-1)
R == INSTANCE Rss WITH Plus <- plus, Minus <- minus, Times <- times, SumOf <- sumof, Nil <- 0, IsVal <- isval

\* programs: <<"in", counts>>, <<"lin", op, a, b, c>>, <<"mul", << pairs >>>>, <<"chk">>
Small == << <<"in", <<1, 0, 1>>>>, <<"mul", << <<1, 2>> >>>>, <<"lin", "add", 3, 1, 0>>, <<"mul", << <<4, 3>> >>>>, <<"chk">> >>
Again == << <<"in", <<0, 1, 0>>>>, <<"mul", << <<1, 1>> >>>>, <<"in", <<1, 0, 0>>>>, <<"lin", "csub", 3, 3, 4>>, <<"chk">> >>
Mixed == << <<"in", <<1, 0, 0, 1>>>>, <<"mul", << <<1, 2>>, <<2, 2>> >>>>, <<"lin", "mulc", 3, 3, 6>>, <<"chk">>, <<"mul", << <<5, 4>> >>>>,
            <<"in", <<0, 2, 0, 0>>>>, <<"lin", "csub", 8, 8, 9>>, <<"mul", <<>>>>, <<"mul", << <<9, 6>> >>>>, <<"chk">> >>
Five  == << <<"in", <<0, 1, 0, 0, 1>>>>, <<"mul", << <<1, 2>> >>>>, <<"chk">> >>
Four  == << <<"in", <<0, 0, 1, 0>>>>, <<"mul", << <<1, 1>> >>>>, <<"chk">> >>
Steps == CASE Phases = 1 -> Small [] Phases = 2 -> Again [] Phases = 3 -> Four [] Phases = 4 -> Mixed [] Phases = 5 -> Five
F == 1..Len(Steps)
Secret(f, i, k) == (5 * f + 3 * i + 2 * k + 1) % Q

\* ---- the plain computation
Lin(op, a, b, c) == CASE op = "add" -> plus(a, b) [] op = "csub" -> minus(c, a) [] op = "mulc" -> times(a, c)
Inputs(f) == FlattenSeq([i \in 1..N |-> [k \in 1..Steps[f][2][i] |-> Secret(f, i - 1, k)]])
RECURSIVE Values(_, _)
Values(f, v) ==
  IF f > Len(Steps) THEN v
  ELSE LET s == Steps[f] IN
       Values(f + 1, CASE s[1] = "in" -> v \o Inputs(f)
                       [] s[1] = "lin" -> Append(v, Lin(s[2], v[s[3]], v[s[4]], s[5]))
                       [] s[1] = "mul" -> v \o [k \in 1..Len(s[2]) |-> times(v[s[2][k][1]], v[s[2][k][2]])]
                       [] s[1] = "chk" -> v)
Val == TLCEval(Values(1, <<>>))

\* ---- randomness
KeyComp(f, i, c) == (4 * f + 2 * i + 3 * c + i * c + 1) % Q
MaskFrom(key, k) == (3 * key + 2 * k * key + 5 * k + 1) % Q          \* the k-th output of a generator
Mask(f, i, k) == sumof([c \in 1..T.comps |-> MaskFrom(KeyComp(f, i, c), k)])
Rand(m, u, c) == (7 * u + 3 * c + 5 * m + u * c * m + 2) % Q         \* component c of u's part of the m-th mask
RandAdd(m, u) == sumof([c \in 1..T.comps |-> Rand(m, u, c)])
RandShare(m, p) == [x \in 1..T.size |-> sumof([u \in 1..(2 * D0 + 1) |-> Rand(m, u - 1, T.idx[p][x])])]
Coef(m) == (4 * m + 3) % Q
\* multiplications before phase f
MulsBefore(f) == FoldLeft(LAMBDA a, s : IF s[1] = "mul" THEN a + Len(s[2]) ELSE a, 0, SubSeq(Steps, 1, f - 1))

\* ---- what a party does: << "send" or "recv" or "local", phase, kind, party >>
Each(S, G(_)) == FlattenSeq([x \in 1..Len(S) |-> G(S[x])])
All == [x \in 1..N |-> x - 1]
Acts(f, p) ==
  LET s == Steps[f] IN
  CASE s[1] = "in" -> << <<"send", f, "key", p>> >> \o Each(All, LAMBDA j : << <<"recv", f, "key", j>> >>)
                      \o (IF s[2][p+1] > 0 THEN << <<"send", f, "val", p>> >> ELSE <<>>)
                      \o Each(All, LAMBDA j : IF s[2][j+1] > 0 /\ (Variant # "unread" \/ s[2][p+1] > 0)
                                              THEN << <<"recv", f, "val", j>> >> ELSE <<>>)
                      \o << <<"local", f, "in", p>> >>
    [] s[1] = "lin" -> << <<"local", f, "lin", p>> >>
    [] s[1] = "mul" -> (IF p \in U THEN << <<"send", f, "add", p>> >> ELSE <<>>)
                      \o (IF p = 0 THEN Each([x \in 1..(2 * D0 + 1) |-> x - 1], LAMBDA j : << <<"recv", f, "add", j>> >>)
                                        \o << <<"send", f, "sum", p>> >> ELSE <<>>)
                      \o (IF InT(p) THEN << <<"recv", f, "sum", 0>> >> ELSE <<>>)
                      \o << <<"local", f, "mul", p>> >>
    [] s[1] = "chk" -> << <<"send", f, "chk", p>> >> \o Each(All, LAMBDA j : << <<"recv", f, "chk", j>> >>)
Prog == TLCEval([p \in P |-> Each([f \in F |-> f], LAMBDA f : Acts(f, p))])

VARIABLES pc, ch,
          wires,     \* p -> its shares of the wires
          in,        \* p -> party -> what was received in this phase, by kind
          checked    \* p -> all values received in check phases, by sender
vars == <<pc, ch, wires, in, checked>>
Nothing == [j \in P |-> [key |-> <<>>, val |-> <<>>, add |-> <<>>, sum |-> <<>>]]
Init == /\ pc = [p \in P |-> 1] /\ ch = [x \in P \X P |-> <<>>]
        /\ wires = [p \in P |-> <<>>] /\ in = [p \in P |-> Nothing]
        /\ checked = [p \in P |-> [j \in P |-> <<>>]]
Now(p) == Prog[p][pc[p]]
Live(p) == pc[p] <= Len(Prog[p])
Step(p) == pc' = [pc EXCEPT ![p] = @ + 1]

PT == TLCEval([i \in 1..T.comps |-> [j \in 1..T.comps |->
        LET common == SelectSeq(T.sets[i], LAMBDA q : q \in T.hold[j])
            set == SubSeq(common, 1, N - 2 * D0) IN CHOOSE c \in 1..D.comps : D.sets[c] = set]])
\* what p adds to the degree-2d component c of the product of its shares a, b,
\* in the message of party u
At(p, c) == CHOOSE x \in 1..T.size : T.idx[p][x] = c
Part(p, a, b, u, c) == IF D.first[c] # u THEN 0
  ELSE FoldLeft(LAMBDA s, ij : plus(s, times(a[At(p, ij[1])], b[At(p, ij[2])])), 0,
                R!PairsTo(T, PT, c))
AddShare(p, a, b) == sumof([x \in 1..D.size |-> Part(p, a, b, p, D.idx[p][x])])
MulPairs(f, p) == [k \in 1..Len(Steps[f][2]) |-> <<wires[p][Steps[f][2][k][1]], wires[p][Steps[f][2][k][2]]>>]

\* all multiplications before phase f, with the pairs of shares of p
AllMuls(f, p) == FlattenSeq([g \in 1..(f - 1) |-> IF Steps[g][1] = "mul" THEN MulPairs(g, p) ELSE <<>>])
Lacks(i, j) == SelectSeq(D.idx[i], LAMBDA c : j \notin D.hold[c])
ValueComps(i, j)  == SelectSeq(Lacks(i, j), LAMBDA c : D.first[c] = i)
DigestComps(i, j) == SelectSeq(Lacks(i, j), LAMBDA c : D.first[c] # i)
CheckFrom(f) == IF Variant = "last" THEN Max({0} \cup {MulsBefore(g) : g \in {g \in 1..(f-1) : Steps[g][1] = "mul"}}) ELSE 0
CheckValues(f, p, j) ==
  LET ms == AllMuls(f, p) IN
  FlattenSeq([x \in 1..Len(ValueComps(p, j)) |-> [u \in 1..(2 * D0 + 1) |->
     sumof([m \in 1..(Len(ms) - CheckFrom(f)) |->
       LET q == m + CheckFrom(f) IN times(Coef(q), Part(p, ms[q][1], ms[q][2], u - 1, ValueComps(p, j)[x]))])]])

Units(p, f, kind, j) ==
  CASE kind = "key" -> [x \in 1..T.size |-> KeyComp(f, p, T.idx[j][x])]
    [] kind = "val" -> [k \in 1..Steps[f][2][p+1] |-> minus(Secret(f, p, k), Mask(f, p, k))]
    [] kind = "add" -> IF j # 0 THEN <<>> ELSE
         With(MulPairs(f, p), LAMBDA mp : [k \in 1..Len(mp) |-> minus(AddShare(p, mp[k][1], mp[k][2]), RandAdd(MulsBefore(f) + k, p))])
    [] kind = "sum" -> IF ~InT(j) THEN <<>> ELSE
         [k \in 1..Len(Steps[f][2]) |-> sumof([u \in 1..(2 * D0 + (IF Variant = "short" THEN 0 ELSE 1)) |-> in[p][u - 1].add[k]])]
    [] kind = "chk" -> LET v == CheckValues(f, p, j) IN
         <<Len(v)>> \o v \o <<Len(DigestComps(p, j))>> \o [x \in 1..Len(DigestComps(p, j)) |-> 0]
Send(p) == /\ Live(p) /\ Now(p)[1] = "send"
           /\ ch' = [x \in P \X P |-> IF x[1] = p THEN ch[x] \o Units(p, Now(p)[2], Now(p)[3], x[2]) ELSE ch[x]]
           /\ Step(p) /\ UNCHANGED <<wires, in, checked>>
Count(f, kind, j) == CASE kind = "key" -> T.size
                       [] kind = "val" -> Steps[f][2][j + 1]
                       [] OTHER -> Len(Steps[f][2])
Recv(p) == /\ Live(p) /\ Now(p)[1] = "recv" /\ Now(p)[3] # "chk"
           /\ \E j \in {Now(p)[4]}, kind \in {Now(p)[3]} : \E k \in {Count(Now(p)[2], kind, j)}, s \in {ch[<<j, p>>]} :
                /\ Len(s) >= k
                /\ in' = [in EXCEPT ![p][j][kind] = SubSeq(s, 1, k)]
                /\ ch' = [ch EXCEPT ![<<j, p>>] = SubSeq(s, k + 1, Len(s))]
           /\ Step(p) /\ UNCHANGED <<wires, checked>>
RecvLists(p) ==
  /\ Live(p) /\ Now(p)[1] = "recv" /\ Now(p)[3] = "chk"
  /\ \E j \in {Now(p)[4]} : \E s \in {ch[<<j, p>>]} :
       /\ Len(s) >= 1 /\ Len(s) >= s[1] + 2 /\ Len(s) >= s[1] + 2 + s[s[1] + 2]
       /\ checked' = [checked EXCEPT ![p][j] = Append(@, SubSeq(s, 2, s[1] + 1))]
       /\ ch' = [ch EXCEPT ![<<j, p>>] = SubSeq(s, s[1] + 3 + s[s[1] + 2], Len(s))]
  /\ Step(p) /\ UNCHANGED <<wires, in>>
AddConst(p, a, c) == [x \in 1..T.size |-> IF T.idx[p][x] = 1 THEN plus(a[x], c) ELSE a[x]]
Out(p, f, kind) ==
  CASE kind = "in" -> FlattenSeq([i \in 1..N |-> [k \in 1..Steps[f][2][i] |->
                        AddConst(p, [x \in 1..T.size |-> MaskFrom(in[p][i-1].key[x], k)],
                                 IF in[p][i-1].val = <<>> THEN 0 ELSE in[p][i-1].val[k])]])
    [] kind = "lin" -> LET s == Steps[f]  a == wires[p][s[3]]  b == wires[p][s[4]] IN
         << CASE s[2] = "add" -> [x \in 1..T.size |-> plus(a[x], b[x])]
              [] s[2] = "mulc" -> [x \in 1..T.size |-> times(a[x], s[5])]
              [] s[2] = "csub" -> AddConst(p, [x \in 1..T.size |-> minus(0, a[x])], s[5]) >>
    [] kind = "mul" -> [k \in 1..Len(Steps[f][2]) |->
                          AddConst(p, RandShare(MulsBefore(f) + k, p), IF InT(p) THEN in[p][0].sum[k] ELSE 0)]
Local(p) == /\ Live(p) /\ Now(p)[1] = "local"
            /\ wires' = [wires EXCEPT ![p] = @ \o Out(p, Now(p)[2], Now(p)[3])]
            /\ in' = [in EXCEPT ![p] = Nothing]
            /\ Step(p) /\ UNCHANGED <<ch, checked>>
AllDone == \A p \in P : ~Live(p)
Next == (\E p \in P : Send(p) \/ Recv(p) \/ RecvLists(p) \/ Local(p)) \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the parties that have a wire have consistent shares of it; when all have,
\* they share its value
WireOk(w) == LET has == {p \in P : Len(wires[p]) >= w} IN
  /\ \A p, q \in has : \A x, y \in 1..T.size : T.idx[p][x] = T.idx[q][y] => wires[p][w][x] = wires[q][w][y]
  /\ has = P => sumof([c \in 1..T.comps |-> wires[T.first[c]][w][T.fpos[c]]]) = Val[w]
Sharings == \A w \in 1..Len(Val) : WireOk(w)
\* every party was sent the combined components it lacks, for the products of
\* the wires of the computation
Muls(f) == FlattenSeq([g \in 1..(f - 1) |-> IF Steps[g][1] = "mul" THEN Steps[g][2] ELSE <<>>])
Comps(w) == [c \in 1..T.comps |-> wires[T.first[c]][w][T.fpos[c]]]
Truth(f, i, j) == LET ms == Muls(f) IN
  FlattenSeq([x \in 1..Len(ValueComps(i, j)) |-> [u \in 1..(2 * D0 + 1) |->
    LET c == ValueComps(i, j)[x] IN
    IF D.first[c] # u - 1 THEN 0
    ELSE sumof([m \in 1..Len(ms) |-> times(Coef(m), R!ProductComps(T, D, PT, Comps(ms[m][1]), Comps(ms[m][2]))[c])])]])
ChkPhases == SelectSeq([f \in F |-> f], LAMBDA f : Steps[f][1] = "chk")
CheckOk == AllDone => \A i, j \in P : i # j =>
             checked[j][i] = [x \in 1..Len(ChkPhases) |-> Truth(ChkPhases[x], i, j)]
Drained == AllDone => \A x \in P \X P : ch[x] = <<>>
Finishes == <>AllDone
=============================================================================
