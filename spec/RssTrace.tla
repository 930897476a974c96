------------------------------ MODULE RssTrace ------------------------------
(***************************************************************************)
(* Trace specification for the secret sharing code (C01 - C05, C27).       *)
(* State: the table of the current scheme, the component values seen from  *)
(* the current generator, and registers holding shared values with the     *)
(* sharing last observed for them.                                         *)
(***************************************************************************)
EXTENDS TraceBase, Rss61

Cfgs == {<<Trace[i].n, Trace[i].t>> : i \in {i \in 1..Len(Trace) : Trace[i].e = "session"}}
Doubles == {<<Trace[i].n, 2 * Trace[i].t>> : i \in {i \in 1..Len(Trace) : Trace[i].e = "session"}}
Tab  == Tables(Cfgs)
DTab == IF \E i \in 1..Len(Trace) : Trace[i].e = "mul"
        THEN Tables(Doubles) ELSE <<>>

VARIABLES cfg,      \* << n, t >> of the scheme in use
          seen,     \* component values dealt so far by this generator
          rows,     \* the last deals of single values: secret and components
          reg       \* register -> [v |-> value, s |-> shares]
vars == <<l, cfg, seen, rows, reg>>

T == Tab[cfg]
Init == l = 1 /\ cfg = <<0, 0>> /\ seen = {} /\ rows = <<>> /\ reg = <<>>

Keep == UNCHANGED <<cfg, seen, rows, reg>>
Good(r, v) == r.ok /\ r.v = v

\* C01: exactly the thresholds 1..n-1 are accepted.
Create == /\ Is("create") /\ Keep
          /\ For("C01") => Ev.ok = (0 < Ev.t /\ Ev.t < Ev.n)

\* the scheme for n parties, if none is asked for, has the largest threshold that
\* multiplication with n parties supports; there is none below 4 parties
Default == /\ Is("default") /\ Keep
           /\ IF Ev.n < 4 THEN Ev.size = 0
              ELSE Ev.size = Ev.n /\ 3 * Ev.t < Ev.n /\ 3 * (Ev.t + 1) >= Ev.n

Session == /\ Is("session")
           /\ cfg' = <<Ev.n, Ev.t>> /\ seen' = {} /\ rows' = <<>> /\ reg' = <<>>
           /\ Has(Ev, "size") =>
                /\ Ev.size = Ev.n /\ Ev.threshold = Ev.t
                /\ Ev.add = Tab[<<Ev.n, Ev.t>>].comps
                /\ Ev.share = Tab[<<Ev.n, Ev.t>>].size
                /\ Ev.bytes = 8 * Ev.share
           /\ Has(Ev, "sizes") => Ev.sizes = [p \in 1..Ev.n |-> Tab[<<Ev.n, Ev.t>>].size]

\* C01, C02: sharing x gives consistent components summing to x, of which all
\* but one are new and different from each other.
Fresh(vals, old) == Cardinality({vals[c] : c \in 1..Len(vals)} \ old) >= Len(vals) - 1
AllVals(s) == {s[c] : c \in 1..Len(s)}
\* at least two thirds of the high bits are not all zero: values fill the field
Wide(vals) == Len(vals) >= 12 =>
                Cardinality({c \in 1..Len(vals) : vals[c][5] # 0}) * 3 >= 2 * Len(vals)
OneShare(x, s, rec, det) ==
  IF For("C01") THEN Holds(SharingOf(T, s, x) /\ Good(rec, x) /\ Good(det, x))
                ELSE Holds(IsASharing(T, s))
\* No combination of components is the same in every one of several deals, the
\* secrets not being all equal.  (Larger schemes: the first columns only.)
Cols(cs) == SubSeq(cs, 1, IF Len(cs) < 24 THEN Len(cs) ELSE 24)
Unrelated(deals) ==
  Cardinality({deals[a][1] : a \in 1..Len(deals)}) > 1
    => Holds(Indep!Independent([a \in 1..Len(deals) |-> Cols(deals[a][2])]))
Opaque(deals) == OpaqueDeals([a \in 1..Deals |-> Cols(deals[a][2])])
\* The same for relations that are less exact, over more deals: no difference of
\* two bytes (their lower five bits) of one deal, or of neighbouring deals, stays
\* within a third of its range.
Many == 41
Bytes(cs) == EagerSeq(8 * Len(cs), LAMBDA x : ByteOf(cs[((x - 1) \div 8) + 1], (x - 1) % 8) % 32)
Unlike(deals) ==
  With([a \in 1..Many |-> Bytes(SubSeq(deals[a][2], 1, IF Len(deals[a][2]) < 6 THEN Len(deals[a][2]) ELSE 6))], LAMBDA bs :
    \A x \in 1..Len(bs[1]) : \A y \in 1..Len(bs[1]) :
      /\ x < y => Cardinality({(32 + bs[a][x] - bs[a][y]) % 32 : a \in 1..Many}) > 10
      /\ Cardinality({(32 + bs[a][x] - bs[a + 1][y]) % 32 : a \in 1..(Many - 1)}) > 10)
Enough == IF Indep!Needed(T.comps) < Deals THEN Deals ELSE Indep!Needed(T.comps)
Share == /\ Is("share")
         /\ OneShare(Ev.secret[1], Ev.shares, Ev.rec, Ev.det)
         /\ LET cs == CompsOf(T, Sharing(T, Ev.shares)) IN
              /\ For("C02") => Fresh(cs, seen) /\ Wide(cs)
              /\ seen' = seen \cup AllVals(cs)
              /\ LET more == Append(rows, <<Ev.secret[1], cs>>) full == Len(more) >= Enough IN
                   /\ For("C02") /\ full => Unrelated(more) /\ Opaque(more)
                   /\ rows' = IF full THEN <<>> ELSE more
         /\ UNCHANGED <<cfg, reg>>

ShareList ==
  /\ Is("sharelist")
  /\ LET k == Len(Ev.secrets)
         Nth(i) == [p \in 1..T.n |-> Ev.shares[p][i]]
         CompsAt(i) == CompsOf(T, Sharing(T, Nth(i)))
     IN
     /\ Len(Ev.shares) = T.n
     /\ Holds(\A p \in 1..T.n : Len(Ev.shares[p]) = k)
     /\ For("C01") => Len(Ev.rec) = k /\ Len(Ev.det) = k
     /\ Holds(\A i \in 1..k : OneShare(Ev.secrets[i], Nth(i), Ev.rec[i], Ev.det[i]))
     /\ LET all == UNION {AllVals(CompsAt(i)) : i \in 1..k} IN
          /\ For("C02") => Cardinality(all \ seen) >= k * (T.comps - 1)
          /\ seen' = seen \cup all
     \* the first and the last sharings of the list
     /\ LET w == Indep!Needed(T.comps) deal(i) == <<Ev.secrets[i], CompsAt(i)>> IN
          For("C02") /\ k >= w =>
             /\ Unrelated([a \in 1..w |-> deal(a)])
             /\ Unrelated([a \in 1..w |-> deal(k - w + a)])
     /\ LET deal(i) == <<Ev.secrets[i], CompsAt(i)>> IN
          For("C02") /\ k >= Deals =>
             /\ Opaque(TLCEval([a \in 1..Deals |-> deal(a)]))
             /\ Opaque(TLCEval([a \in 1..Deals |-> deal(k - Deals + a)]))
             /\ k >= Many => Holds(Unlike(TLCEval([a \in 1..Many |-> deal(a)])))
  /\ UNCHANGED <<cfg, rows, reg>>

\* C02: with the same generator state another secret changes one component
\* only, by exactly the difference.
Twin == /\ Is("twin")
        /\ Holds(IsASharing(T, Ev.sh1) /\ IsASharing(T, Ev.sh2))
        /\ For("C02") => LET a == CompsOf(T, Sharing(T, Ev.sh1))
               b == CompsOf(T, Sharing(T, Ev.sh2))
               diff == {c \in 1..T.comps : a[c] # b[c]}
           IN IF Ev.s1 = Ev.s2 THEN diff = {}
              ELSE Cardinality(diff) = 1
        /\ Keep

\* C03: a value exactly if all copies of every component agree, and then the
\* value they stand for; never a wrong one against up to n-t-1 parties.
Detect == /\ Is("detect")
          /\ Holds(ShapedSeq(T, Ev.shares))
          /\ LET f == Sharing(T, Ev.shares) ok == Consistent(T, f) IN
             /\ Ev.det.ok = ok
             /\ ok => Ev.det.v = Value(T, f)
             /\ Ev.det.ok /\ Len(Ev.bad) <= T.n - T.t - 1 => Ev.det.v = Ev.secret
          /\ Keep

\* C04
Load == /\ Is("load")
        /\ Holds(SharingOf(T, Ev.shares, Ev.secret))
        /\ reg' = (Ev.dst :> [v |-> Ev.secret, s |-> Ev.shares]) @@ reg
        /\ UNCHANGED <<cfg, seen, rows>>
OpValue(op, x, y, c) ==
  CASE op = "add"  -> plus61(x, y)
    [] op = "sub"  -> minus61(x, y)
    [] op \in {"addc", "cadd"} -> plus61(x, c)
    [] op = "subc" -> minus61(x, c)
    [] op = "csub" -> minus61(c, x)
    [] op \in {"mulc", "cmul"} -> times61(x, c)
Linear == /\ Is("op")
          /\ Ev.kept /\ Ev.a2 = reg[Ev.a].s /\ Ev.b2 = reg[Ev.b].s
          /\ LET v == OpValue(Ev.op, reg[Ev.a].v, reg[Ev.b].v, Ev.c) IN
             /\ Holds(SharingOf(T, Ev.res, v)) /\ Good(Ev.rec, v)
             /\ reg' = (Ev.dst :> [v |-> v, s |-> Ev.res]) @@ reg
          /\ UNCHANGED <<cfg, seen, rows>>

\* C05
Mul == /\ Is("mul")
       /\ Holds(SharingOf(T, Ev.xs, Ev.x) /\ SharingOf(T, Ev.ys, Ev.y))
       /\ Ev.xs2 = Ev.xs /\ Ev.ys2 = Ev.ys
       /\ LET D == DTab[<<cfg[1], 2 * cfg[2]>>] p == times61(Ev.x, Ev.y) IN
          /\ Holds(SharingOf(D, Ev.dd, p))
          /\ Len(Ev.add) = T.n /\ Holds(\A i \in 1..T.n : elem61(Ev.add[i]))
          /\ sum61(SubSeq(Ev.add, 1, 2 * T.t + 1)) = p
          /\ Holds(\A i \in (2 * T.t + 2)..T.n : Ev.add[i] = F61!Zero)
       /\ Keep

\* C05: the tables.  A party's entry << a, b, c, f >> says that the product of
\* its local components a and b goes to its local component c of the product,
\* and that party f counts it for additive sharings.  Whatever component of the
\* product a pair is assigned to: its holders hold the pair, they all have the
\* entry, nobody else has one, and f is the first to hold the pair.
TablesEv ==
  /\ Is("tables")
  /\ \E D \in {DTab[<<cfg[1], 2 * cfg[2]>>]} : \E ps \in {0..(T.n - 1)} :
     \E glob \in {EagerFcn(ps, LAMBDA p : {<< <<T.idx[p][e[1] + 1], T.idx[p][e[2] + 1]>>, D.idx[p][e[3] + 1], e[4]>> :
                                            e \in {Ev.tab[p + 1][k] : k \in 1..Len(Ev.tab[p + 1])}})} :
     \E all \in {UNION {glob[p] : p \in ps}} :
     /\ Len(Ev.tab) = T.n /\ Len(Ev.rec) = T.n
     /\ Holds(\A p \in ps : Len(Ev.tab[p + 1]) = Cardinality(glob[p]))
     /\ Cardinality(all) = T.comps * T.comps
     /\ Cardinality({e[1] : e \in all}) = T.comps * T.comps
     /\ Holds(\A e \in all : LET both == T.hold[e[1][1]] \cap T.hold[e[1][2]] IN
               /\ D.hold[e[2]] \subseteq both
               /\ e[3] \in D.hold[e[2]] /\ \A p \in both : e[3] <= p
               /\ \A p \in ps : (e \in glob[p]) = (p \in D.hold[e[2]]))
     /\ Holds(\A p \in ps :
               /\ Len(Ev.cidx[p + 1]) = T.size /\ \A a \in 1..T.size : Len(Ev.cidx[p + 1][a]) = T.size
               /\ {<<a, b, Ev.cidx[p + 1][a + 1][b + 1]>> : a, b \in 0..(T.size - 1)}
                    \ {<<a, b, -1>> : a, b \in 0..(T.size - 1)}
                  = {<<Ev.tab[p + 1][k][1], Ev.tab[p + 1][k][2], Ev.tab[p + 1][k][3]>> : k \in 1..Len(Ev.tab[p + 1])})
     \* reconstruction: everybody who misses a component of the product gets its
     \* value from exactly one of the holders and something from each of them
     /\ Holds(\A p \in ps : /\ Len(Ev.rec[p + 1]) = D.size
               /\ \A j \in 1..D.size : LET to == Ev.rec[p + 1][j].to IN
                    /\ Len(to) = T.n - Cardinality(D.hold[D.idx[p][j]])
                    /\ {to[k] : k \in 1..Len(to)} = ps \ D.hold[D.idx[p][j]])
     /\ Holds(\A c \in 1..D.comps :
               Cardinality({p \in D.hold[c] : \E j \in 1..D.size : D.idx[p][j] = c /\ Ev.rec[p + 1][j].value}) = 1)
  /\ Keep

\* C27
BinomEv == /\ Is("binom")
           /\ <<Ev.hi, Ev.lo>> = BinomialBig(Ev.m, Ev.k)
           /\ Keep
\* rows beyond that: the ends of the row, and each number the sum of the two above it
BinomStep == /\ Is("binomstep")
             /\ Ev.v = PlusBig(Ev.left, Ev.above)
             /\ Ev.k = 1 => Ev.left = <<0, 1>> /\ Ev.v = <<0, Ev.m>>
             /\ Ev.k = Ev.m => Ev.above = <<0, 0>> /\ Ev.v = <<0, 1>>
             /\ Ev.mirror = Ev.v
             /\ Keep
Walk == /\ Is("walk")
        /\ \E cs \in {Combs(Ev.m, Ev.k)} : Ev.seq = cs
        /\ ~Ev.again /\ Ev.after = Ev.seq[Len(Ev.seq)]
        /\ Keep
Nth == /\ Is("nth")
       /\ \E cs \in {Combs(Ev.m, Ev.k)} :
          Holds(\A i \in 1..Len(Ev.nth) : Ev.nth[i][2] = cs[Ev.nth[i][1] + 1])
       /\ Keep
TableEv ==
  /\ Is("table")
  /\ \E tb \in {Table(Ev.n, Ev.t)} :
     /\ Ev.size = Ev.n /\ Ev.threshold = Ev.t
     /\ Ev.add = tb.comps /\ Ev.share = tb.size
     /\ Ev.combs = tb.sets
     /\ Ev.rev = [c \in 1..tb.comps |-> c - 1]
     /\ Len(Ev.idx) = tb.n
     /\ \A p \in 1..tb.n : Ev.idx[p] = [j \in 1..tb.size |-> tb.idx[p-1][j] - 1]
     /\ Ev.diff = Len(DiffPos(tb.idx[0], tb.idx[1]))
  /\ Keep
SetsEv == /\ Is("sets")
          /\ Ev.inter = InterPos(Ev.a, Ev.b) /\ Ev.diff = DiffPos(Ev.a, Ev.b)
          /\ Keep

Next == Create \/ Default \/ Session \/ Share \/ ShareList \/ Twin \/ Detect \/ Load
        \/ Linear \/ Mul \/ TablesEv \/ BinomEv \/ BinomStep \/ Walk \/ Nth \/ TableEv \/ SetsEv
        \/ (End /\ Keep)
View == l
=============================================================================
