----------------------------- MODULE ProtoTrace -----------------------------
(***************************************************************************)
(* Trace specification for the protocols between parties (C06 - C12).      *)
(* A session is one execution of a protocol by n parties with threshold d. *)
(* State: for every ordered pair of parties the stream of units sent       *)
(* (elements and bytes) and how much of it was received, which parties are *)
(* done, and what the results are compared with.                           *)
(***************************************************************************)
EXTENDS TraceBase, Rss61, Lists

Sessions == {i \in 1..Len(Trace) : Trace[i].e = "session"}
Tab  == Tables({<<Trace[i].n, Trace[i].d>> : i \in Sessions})
DTab == Tables({<<Trace[i].n, 2 * Trace[i].d>> : i \in
                  {i \in Sessions : Trace[i].kind \in {"mult", "check"} /\ 2 * Trace[i].d < Trace[i].n}})

VARIABLES ses,     \* the session event
          sent,    \* << i, j >> -> everything i sent to j so far
          rcvd,    \* << i, j >> -> how much of it j received
          fin,     \* parties that finished, and those that finished the setup
          cnt,     \* results compared so far
          seen,    \* values that may not occur again
          acc,     \* values results are compared with
          rows     \* values dealt at random by each source, deal by deal
vars == <<l, ses, sent, rcvd, fin, cnt, seen, acc, rows>>

NoSession == [kind |-> "none", n |-> 0, d |-> 0]
Init == /\ l = 1 /\ ses = NoSession /\ sent = <<>> /\ rcvd = <<>>
        /\ fin = [done |-> {}, setup |-> {}] /\ cnt = 0 /\ seen = {} /\ acc = <<>> /\ rows = <<>>

n == ses.n
d == ses.d
P == 0..(n - 1)
U == 1..(2 * d + 1)                 \* positions of the parties 0..2d
T == Tab[<<n, d>>]
D == DTab[<<n, 2 * d>>]
Zero == F61!Zero
Kind(k) == ses.kind = k
StreamsOf(s) == (0..(s.n - 1)) \X (0..(s.n - 1))

\* A finished session: everything that was sent has been received.
Drained == Holds(\A x \in DOMAIN sent : rcvd[x] = Len(sent[x]))
AllDone == fin.done = P

Session ==
  /\ Is("session") /\ Kind("none")
  /\ ses' = Ev
  /\ sent' = [x \in StreamsOf(Ev) |-> <<>>]
  /\ rcvd' = [x \in StreamsOf(Ev) |-> 0]
  /\ fin' = [done |-> {}, setup |-> {}] /\ cnt' = 0 /\ seen' = {} /\ acc' = <<>> /\ rows' = <<>>

Send == /\ Is("send") /\ ~Kind("none") /\ ~Kind("corr")
        /\ Ev.i \notin fin.done
        /\ Holds(\A a \in 1..Len(Ev.u) : Unit(Ev.u[a]))
        /\ sent' = [sent EXCEPT ![<<Ev.i, Ev.j>>] = @ \o Ev.u]
        /\ UNCHANGED <<ses, rcvd, fin, cnt, seen, acc>>
Recv == /\ Is("recv") /\ ~Kind("none") /\ ~Kind("corr")
        /\ Ev.j \notin fin.done
        /\ rcvd[<<Ev.i, Ev.j>>] + Ev.n <= Len(sent[<<Ev.i, Ev.j>>])
        /\ rcvd' = [rcvd EXCEPT ![<<Ev.i, Ev.j>>] = @ + Ev.n]
        /\ UNCHANGED <<ses, sent, fin, cnt, seen, acc>>
Done == /\ Is("done") /\ Ev.p \in P \ fin.done
        /\ fin' = [fin EXCEPT !.done = @ \cup {Ev.p}]
        /\ UNCHANGED <<ses, sent, rcvd, cnt, seen, acc>>
SetupDone == /\ Is("setup") /\ Kind("input") /\ Ev.p \in P \ fin.setup
             /\ fin' = [fin EXCEPT !.setup = @ \cup {Ev.p}]
             /\ UNCHANGED <<ses, sent, rcvd, cnt, seen, acc>>

\* Deals of one source are unrelated: no combination of the values is the same
\* in each of the last deals.  Looked at whenever enough more have been made.
Unrelated(deals, values) ==
  LET w == Indep!Needed(values) IN
  /\ Len(deals) % w = 0 => Holds(Indep!Independent(SubSeq(deals, Len(deals) - w + 1, Len(deals))))
  /\ Len(deals) > 0 /\ Len(deals) % Deals = 0 => Holds(OpaqueDeals(SubSeq(deals, Len(deals) - Deals + 1, Len(deals))))

\* Of a long list only some entries are recorded, the last one among them.
Follows(c, k) == k = c \/ (ses.sample /\ k > c)

Elems(s) == \A a \in 1..Len(s) : elem61(s[a])
Total(b) == FoldLeft(LAMBDA a, x : a + x, 0, b)

---------------------------------------------------------------------------
(* C06: one call of the generator by every party.                          *)
CompsSet(s) == With(CompsOf(T, Sharing(T, s)), LAMBDA cs : {cs[c] : c \in 1..T.comps})
Rand ==
  /\ Is("rand") /\ Kind("corr")
  /\ Len(Ev.add) = n /\ Len(Ev.sh) = n /\ Len(Ev.rep) = n
  /\ Holds(Elems(Ev.add))
  /\ Holds(\A p \in 1..n : Len(Ev.rep[p]) = 2 * d + 1)
  /\ Holds(SharingOf(T, Ev.sh, sum61(SubSeq(Ev.add, 1, 2 * d + 1))))
  /\ Holds(\A i \in U : SharingOf(T, [p \in 1..n |-> Ev.rep[p][i]], Ev.add[i]))
  /\ Holds(\A p \in (2 * d + 2)..n : Ev.add[p] = Zero)
  \* everything is new: the components of every additive share and of the sum
  /\ \E new \in {UNION ({CompsSet([p \in 1..n |-> Ev.rep[p][i]]) : i \in U} \cup {CompsSet(Ev.sh)})} :
       /\ Cardinality(new) = (2 * d + 2) * T.comps
       /\ new \cap seen = {}
       /\ seen' = seen \cup new
  \* each sharing by itself, and all the sharings of the shares together
  /\ LET deal == EagerSeq(2 * d + 2, LAMBDA i :
                   CompsOf(T, Sharing(T, IF i > 2 * d + 1 THEN Ev.sh ELSE [p \in 1..n |-> Ev.rep[p][i]])))
     IN rows' = Append(rows, deal)
  /\ For("C06") =>
       /\ Holds(\A i \in 1..(2 * d + 2) : T.comps <= 24 => Unrelated([a \in 1..Len(rows') |-> rows'[a][i]], T.comps))
       /\ (2 * d + 1) * T.comps <= 24 =>
            Unrelated([a \in 1..Len(rows') |-> FlattenSeq(SubSeq(rows'[a], 1, 2 * d + 1))], (2 * d + 1) * T.comps)
  /\ UNCHANGED <<ses, sent, rcvd, fin, cnt, acc>>
AllZero(s) == Len(s) = T.size /\ \A j \in 1..T.size : s[j] = Zero
Dummy ==
  /\ Is("dummy") /\ Kind("corr")
  /\ Holds(\A p \in 1..n : /\ Ev.add[p] = Zero
                           /\ Len(Ev.rep[p]) = 2 * d + 1
                           /\ \A i \in U : AllZero(Ev.rep[p][i])
                           /\ ~Ev.zero => AllZero(Ev.sh[p]))
  /\ UNCHANGED <<ses, sent, rcvd, fin, cnt, seen, acc>>

---------------------------------------------------------------------------
(* C07 - C09: multiplication.                                              *)
Batches == ses.batches
InU(p) == p <= 2 * d                \* sends to the first party
InT(p) == p < n - d                 \* receives from the first party

\* Start of every batch: the position of its first multiplication.
BatchStart == [b \in 1..Len(Batches) |-> Total(SubSeq(Batches, 1, b - 1))]
BatchOf(k) == CHOOSE b \in 1..Len(Batches) : BatchStart[b] <= k /\ k < BatchStart[b] + Batches[b]
\* Where the share and the sum of multiplication k are in the stream from the
\* first party to itself: batch by batch, shares before sums.
SelfShare(k) == k + BatchStart[BatchOf(k)] + 1
SelfSum(k)   == SelfShare(k) + Batches[BatchOf(k)]
SentShare(i, k) == IF i = 0 THEN sent[<<0, 0>>][SelfShare(k)] ELSE sent[<<i, 0>>][k + 1]
SentSum(j, k)   == IF j = 0 THEN sent[<<0, 0>>][SelfSum(k)] ELSE sent[<<0, j>>][k + 1]

StreamLength(i, j) ==
  Total(Batches) * (IF i = 0 /\ j = 0 THEN 2
                    ELSE IF j = 0 THEN (IF InU(i) THEN 1 ELSE 0)
                    ELSE IF i = 0 THEN (IF InT(j) THEN 1 ELSE 0)
                    ELSE 0)
LengthsOk == Holds(\A x \in DOMAIN sent : Len(sent[x]) = StreamLength(x[1], x[2]))

MultSizes ==
  /\ Is("sizes") /\ Kind("mult") /\ AllDone
  /\ For("C07") => Ev.out = [p \in 1..n |-> Batches]
  /\ For("C08") \/ For("C09") => LengthsOk /\ Drained
  /\ UNCHANGED <<ses, sent, rcvd, fin, cnt, seen, acc>>

\* The sharing of the mask is not known to anybody as a whole: masks are told
\* apart by the shares of the parties 0..2d.
Masked(p) == minus61(Ev.prod[p], Ev.mask[p])
Mul ==
  /\ Is("mul") /\ Kind("mult") /\ AllDone /\ Follows(cnt, Ev.k) /\ Ev.k < Total(Batches)
  /\ Len(Ev.prod) = n /\ Len(Ev.mask) = n /\ Holds(Elems(Ev.prod) /\ Elems(Ev.mask))
  /\ For("C07") => Holds(SharingOf(T, Ev.z, times61(Ev.x, Ev.y)))
  /\ For("C08") =>
       /\ Holds(\A i \in 0..(2 * d) : SentShare(i, Ev.k) = Masked(i + 1))
       /\ \E s \in {sum61([i \in U |-> SentShare(i - 1, Ev.k)])} :
            Holds(\A j \in 0..(n - d - 1) : SentSum(j, Ev.k) = s)
       /\ {Ev.mask[i] : i \in U} \cap seen = {}
       /\ Cardinality({Ev.mask[i] : i \in U}) = 2 * d + 1
  /\ For("C09") => sum61([i \in U |-> Ev.prod[i]]) = times61(Ev.x, Ev.y)
  /\ seen' = seen \cup {Ev.mask[i] : i \in U}
  /\ acc' = IF For("C09") THEN Append(acc, <<Ev.k, Ev.prod>>) ELSE acc
  /\ rows' = IF For("C08") THEN Append(rows, [i \in U |-> Ev.mask[i]]) ELSE rows
  /\ For("C08") => Unrelated(rows', 2 * d + 1)
  /\ cnt' = Ev.k + 1
  /\ UNCHANGED <<ses, sent, rcvd, fin>>

CdLen ==
  /\ Is("cdlen") /\ Kind("mult") /\ cnt = Total(Batches)
  /\ Holds(\A p \in P : LET r == Ev.p[p + 1] IN
       /\ r.counter = cnt
       /\ r.msgs = cnt
       /\ r.sent = cnt
       /\ InT(p) => r.back = cnt
       /\ Len(r.recv) = 2 * d + 1
       /\ p = 0 => \A i \in U : r.recv[i] = cnt)
  /\ cnt' = 0
  /\ UNCHANGED <<ses, sent, rcvd, fin, seen, acc>>
Cd ==
  /\ Is("cd") /\ Kind("mult") /\ cnt < Len(acc) /\ Ev.k = acc[cnt + 1][1]
  /\ Holds(\A p \in P : Ev.sent[p + 1] = IF InU(p) THEN SentShare(p, Ev.k) ELSE Zero)
  /\ Holds(\A p \in P : InT(p) => Ev.back[p + 1] = SentSum(p, Ev.k))
  /\ Holds(\A i \in U : Ev.recv[i] = SentShare(i - 1, Ev.k))
  /\ Holds(\A p \in 1..n : Len(Ev.msgs[p]) = 2 * d + 1)
  /\ Holds(\A i \in U : SharingOf(D, [p \in 1..n |-> Ev.msgs[p][i]], acc[cnt + 1][2][i]))
  /\ cnt' = cnt + 1
  /\ UNCHANGED <<ses, sent, rcvd, fin, seen, acc>>
MultFin == /\ Is("fin") /\ Kind("mult") /\ AllDone
           /\ cnt = (IF For("C09") THEN Len(acc) ELSE Total(Batches))
           /\ ses' = NoSession
           /\ UNCHANGED <<sent, rcvd, fin, cnt, seen, acc>>

---------------------------------------------------------------------------
(* C10: the check phase.  The coefficients of the multiplications that have *)
(* messages other than zero are a witness found by the recorder; acc is     *)
(* the combination of the messages: per sender position and component.      *)
Coef ==
  /\ Is("coef") /\ Kind("check") /\ AllDone /\ Drained
  /\ Ev.found /\ Len(Ev.c) = Len(ses.live) /\ Holds(Elems(Ev.c))
  /\ Cardinality({Ev.c[a] : a \in 1..Len(Ev.c)} \ {Zero}) = Len(Ev.c)
  /\ acc' = [coef |-> Ev.c, sum |-> [i \in U |-> [c \in 1..D.comps |-> Zero]]]
  /\ UNCHANGED <<ses, sent, rcvd, fin, cnt, seen>>
Msg ==
  /\ Is("msg") /\ Kind("check") /\ Ev.l = cnt
  /\ Holds(\A i \in U : IsASharing(D, [p \in 1..n |-> Ev.m[p][i]]))
  /\ LET c == acc.coef[cnt + 1]
         plus(i) == With(CompsOf(D, Sharing(D, [p \in 1..n |-> Ev.m[p][i]])), LAMBDA cs :
                      EagerSeq(D.comps, LAMBDA a : plus61(acc.sum[i][a], times61(c, cs[a]))))
     IN acc' = [acc EXCEPT !.sum = EagerSeq(2 * d + 1, plus)]
  /\ cnt' = cnt + 1
  /\ UNCHANGED <<ses, sent, rcvd, fin, seen>>

\* Component numbers i sends to j: as values those it is the first holder of,
\* as digests the others it holds; never what j holds.
Lacks(i, j) == SelectSeq(D.idx[i], LAMBDA c : j \notin D.hold[c])
ValueComps(i, j)  == SelectSeq(Lacks(i, j), LAMBDA c : D.first[c] = i)
DigestComps(i, j) == SelectSeq(Lacks(i, j), LAMBDA c : D.first[c] # i)
Pair(i, j) ==
  With(sent[<<i, j>>], LAMBDA s :
  With(ListEnd(s, 1), LAMBDA a :
  With(IF a = 0 THEN 0 ELSE ListEnd(s, a), LAMBDA b :
    IF i = j THEN s = <<>> \/ (a = 5 /\ b = 9 /\ Len(s) = 8)
    ELSE /\ a > 0 /\ b = Len(s) + 1
         /\ b - a - 4 = Len(DigestComps(i, j))
         /\ SameElements(SubSeq(s, 5, a - 1),
              FlattenSeq([k \in 1..Len(ValueComps(i, j)) |->
                 [u \in U |-> acc.sum[u][ValueComps(i, j)[k]]]])))))
CheckFin ==
  /\ Is("fin") /\ Kind("check") /\ cnt = Len(ses.live)
  /\ Holds(\A i \in P : \A j \in P : Pair(i, j))
  /\ ses' = NoSession
  /\ UNCHANGED <<sent, rcvd, fin, cnt, seen, acc>>

\* Every live multiplication has a 1 at a place of its own among those party i
\* sends to j, so that the values are the coefficients, in any order.
SpreadFin ==
  /\ Is("fin") /\ Kind("coefs") /\ AllDone /\ Drained
  /\ Holds(With(sent[<<Ev.i, Ev.j>>], LAMBDA s : With(ListEnd(s, 1), LAMBDA a :
       /\ a > 0
       /\ With({s[x] : x \in 5..(a - 1)} \ {Zero}, LAMBDA vs :
            /\ Cardinality(vs) = ses.live
            \* nor is one another's double, opposite or successor
            /\ {plus61(v, v) : v \in vs} \cap vs = {}
            /\ {minus61(Zero, v) : v \in vs} \cap vs = {}
            /\ {plus61(v, F61!One) : v \in vs} \cap vs = {}
            /\ ses.live >= 12 => \A k \in 1..6 : \E v \in vs, w \in vs : ByteOf(v, k) # ByteOf(w, k)))))
  /\ ses' = NoSession
  /\ UNCHANGED <<sent, rcvd, fin, cnt, seen, acc>>

---------------------------------------------------------------------------
(* C11, C12: input.  The stream from i to j is i's key share for j and then *)
(* i's masked values.  acc counts the values of each party compared so far. *)
Counts == ses.counts
Key(i) == [p \in 1..n |-> SubSeq(sent[<<i, p - 1>>], 1, T.size)]
KeyComps(i) == CompsSet(Key(i))
InputSizes ==
  /\ Is("sizes") /\ Kind("input") /\ AllDone /\ fin.setup = P
  /\ For("C11") => Ev.out = [p \in 1..n |-> Counts]
  /\ For("C12") =>
       /\ Drained
       /\ Holds(\A x \in DOMAIN sent : Len(sent[x]) = T.size + Counts[x[1] + 1])
       /\ Holds(\A i \in P : IsASharing(T, Key(i)))
       /\ Cardinality(UNION {KeyComps(i) : i \in P}) = n * T.comps
  /\ seen' = IF For("C12") THEN UNION {KeyComps(i) : i \in P} ELSE {}
  /\ acc' = [p \in 1..n |-> 0]
  /\ rows' = [p \in 1..n |-> <<>>]
  /\ UNCHANGED <<ses, sent, rcvd, fin, cnt>>
Inp ==
  /\ Is("inp") /\ Kind("input") /\ AllDone
  /\ Follows(acc[Ev.i + 1], Ev.k) /\ Ev.k < Counts[Ev.i + 1]
  /\ For("C11") => Holds(SharingOf(T, Ev.z, Ev.x))
  /\ For("C12") =>
       /\ \E m \in {minus61(Ev.x, Ev.mask)} :
            Holds(\A j \in P : sent[<<Ev.i, j>>][T.size + Ev.k + 1] = m)
       /\ Holds(SharingOf(T, Ev.ms, Ev.mask))
       /\ CompsSet(Ev.ms) \cap seen = {}
       /\ Cardinality(CompsSet(Ev.ms)) = T.comps
       /\ Ev.mask \notin seen
  /\ rows' = [rows EXCEPT ![Ev.i + 1] =
                IF For("C12") THEN Append(@, CompsOf(T, Sharing(T, Ev.ms))) ELSE @]
  /\ For("C12") /\ T.comps <= 24 => Unrelated(rows'[Ev.i + 1], T.comps)
  /\ seen' = IF For("C12") THEN seen \cup CompsSet(Ev.ms) \cup {Ev.mask} ELSE seen
  /\ acc' = [acc EXCEPT ![Ev.i + 1] = Ev.k + 1]
  /\ UNCHANGED <<ses, sent, rcvd, fin, cnt>>
\* Different keys give different masks, the same key the same ones.
KeyPrgs ==
  /\ Is("keys") /\ Kind("none")
  /\ LET N == Len(Ev.keys) IN
     Holds(/\ Elems(Ev.first) /\ Elems(Ev.second)
           /\ With({<<Ev.keys[a], Ev.first[a], Ev.second[a]>> : a \in 1..N}, LAMBDA all :
                LET k == Cardinality({x[1] : x \in all})
                    f == {x[2] : x \in all} s == {x[3] : x \in all}
                IN /\ Cardinality(all) = k
                   /\ For("C12") => Cardinality(f) = k /\ Cardinality(s) = k /\ f \cap s = {}))
  /\ UNCHANGED <<ses, sent, rcvd, fin, cnt, seen, acc>>
InputFin ==
  /\ Is("fin") /\ Kind("input") /\ AllDone /\ acc = Counts
  /\ ses' = NoSession
  /\ UNCHANGED <<sent, rcvd, fin, cnt, seen, acc>>

---------------------------------------------------------------------------
\* Sessions of correlated randomness have no closing event.
CorrSession ==
  /\ Is("session") /\ Kind("corr")
  /\ ses' = Ev /\ sent' = <<>> /\ rcvd' = <<>>
  /\ fin' = [done |-> {}, setup |-> {}] /\ cnt' = 0 /\ seen' = {} /\ acc' = <<>> /\ rows' = <<>>
TheEnd == /\ End /\ (Kind("none") \/ Kind("corr"))
          /\ UNCHANGED <<ses, sent, rcvd, fin, cnt, seen, acc>>

Step == Send \/ Recv \/ Done \/ SetupDone \/ Dummy \/ MultSizes \/ CdLen \/ Cd \/ MultFin
        \/ Coef \/ Msg \/ CheckFin \/ SpreadFin \/ KeyPrgs \/ InputFin \/ TheEnd
Next == \/ Session \/ CorrSession \/ Rand \/ Mul \/ InputSizes \/ Inp
        \/ (Step /\ UNCHANGED rows)
View == l
=============================================================================
