----------------------------- MODULE CircTrace -----------------------------
(***************************************************************************)
(* Trace specification for whole computations (C28): all parties carry out *)
(* one program of inputs, local operations, batches of multiplications and *)
(* check phases over one network.  First come the messages, in the order   *)
(* in which they were sent and received; then the program, step by step,   *)
(* with the sharings it produced.  Every step explains the next part of    *)
(* every stream, and the value of every wire is that of the computation.   *)
(***************************************************************************)
EXTENDS TraceBase, Lists

Sessions == {i \in 1..Len(Trace) : Trace[i].e = "session"}
Tab  == Tables({<<Trace[i].n, Trace[i].d>> : i \in Sessions})
DTab == Tables({<<Trace[i].n, 2 * Trace[i].d>> : i \in Sessions})

VARIABLES ses, sent, rcvd, done,
          pos,     \* << i, j >> -> how much of its stream is explained
          val,     \* the values of the wires so far
          due,     \* steps that have to follow: values put in, products
          msgs,    \* for every multiplication the parties' recorded messages, as components
          opened   \* wires opened
vars == <<l, ses, sent, rcvd, done, pos, val, due, msgs, opened>>
NoSession == [n |-> 0, d |-> 0]
Init == l = 1 /\ ses = NoSession /\ sent = <<>> /\ rcvd = <<>> /\ done = {} /\ pos = <<>>
        /\ val = <<>> /\ due = 0 /\ msgs = <<>> /\ opened = 0
n == ses.n
d == ses.d
P == 0..(n - 1)
U == 1..(2 * d + 1)
T == Tab[<<n, d>>]
D == DTab[<<n, 2 * d>>]
Pairs == P \X P
Zero == F61!Zero
AllDone == done = P /\ n > 0
Running == n > 0 /\ done # P

Session == /\ Is("session") /\ n = 0
           /\ ses' = Ev /\ done' = {} /\ val' = <<>> /\ due' = 0 /\ msgs' = <<>> /\ opened' = 0
           /\ LET z(v) == [x \in (0..(Ev.n - 1)) \X (0..(Ev.n - 1)) |-> v]
              IN sent' = z(<<>>) /\ rcvd' = z(0) /\ pos' = z(0)
Send == /\ Is("send") /\ Running /\ Ev.i \notin done
        /\ Holds(\A a \in 1..Len(Ev.u) : Unit(Ev.u[a]))
        /\ sent' = [sent EXCEPT ![<<Ev.i, Ev.j>>] = @ \o Ev.u]
        /\ UNCHANGED <<ses, rcvd, done, pos, val, due, msgs, opened>>
Recv == /\ Is("recv") /\ Running /\ Ev.j \notin done
        /\ rcvd[<<Ev.i, Ev.j>>] + Ev.n <= Len(sent[<<Ev.i, Ev.j>>])
        /\ rcvd' = [rcvd EXCEPT ![<<Ev.i, Ev.j>>] = @ + Ev.n]
        /\ UNCHANGED <<ses, sent, done, pos, val, due, msgs, opened>>
Done == /\ Is("done") /\ Ev.p \in P \ done /\ done' = done \cup {Ev.p}
        /\ UNCHANGED <<ses, sent, rcvd, pos, val, due, msgs, opened>>
\* what a party does by itself while the others are at work
Alone == /\ Is("alone") /\ Running /\ Ev.p \in P \ done
         /\ Holds(SharingOf(T, Ev.z, Ev.x))
         /\ ~Ev.threw /\ Ev.rec = Ev.x /\ Ev.det = Ev.x /\ Ev.same
         /\ UNCHANGED <<ses, sent, rcvd, done, pos, val, due, msgs, opened>>

Phase == AllDone /\ due = 0
\* the next k(i, j) units of every stream
Advance(k(_, _)) == pos' = [x \in Pairs |-> pos[x] + k(x[1], x[2])]
NextElems(k(_, _)) == Holds(\A x \in Pairs : /\ pos[x] + k(x[1], x[2]) <= Len(sent[x])
                                             /\ \A a \in (pos[x] + 1)..(pos[x] + k(x[1], x[2])) : elem61(sent[x][a]))
PhaseIn == /\ Is("pin") /\ Phase /\ Len(Ev.counts) = n
           /\ LET k(i, j) == T.size + Ev.counts[i + 1] IN NextElems(k) /\ Advance(k)
           /\ due' = FoldLeft(LAMBDA a, x : a + x, 0, Ev.counts)
           /\ UNCHANGED <<ses, sent, rcvd, done, val, msgs, opened>>
Wire(v) == /\ Ev.w = Len(val) /\ elem61(v)
           /\ Holds(SharingOf(T, Ev.z, v))
           /\ val' = Append(val, v)
In == /\ Is("in") /\ AllDone /\ due > 0 /\ Wire(Ev.x) /\ due' = due - 1
      /\ UNCHANGED <<ses, sent, rcvd, done, pos, msgs, opened>>
Lin == /\ Is("lin") /\ Phase
       /\ \E a \in {val[Ev.a + 1]}, b \in {val[Ev.b + 1]}, c \in {Ev.c} :
            Wire(CASE Ev.op = "add" -> plus61(a, b)
                   [] Ev.op = "sub" -> minus61(a, b)
                   [] Ev.op \in {"addc", "caddc"} -> plus61(a, c)
                   [] Ev.op = "subc" -> minus61(a, c)
                   [] Ev.op = "csub" -> minus61(c, a)
                   [] Ev.op \in {"mulc", "cmulc"} -> times61(a, c))
       /\ UNCHANGED <<ses, sent, rcvd, done, pos, due, msgs, opened>>
PhaseMul == /\ Is("pmul") /\ Phase
            /\ LET k(i, j) == (IF j = 0 /\ i <= 2 * d THEN Ev.k ELSE 0) + (IF i = 0 /\ j < n - d THEN Ev.k ELSE 0)
               IN NextElems(k) /\ Advance(k)
            /\ due' = Ev.k
            /\ UNCHANGED <<ses, sent, rcvd, done, val, msgs, opened>>
\* the messages recorded for the check: a sharing of every party's additive
\* share of the product
Msgs(m) == EagerSeq(2 * d + 1, LAMBDA i : CompsOf(D, Sharing(D, [p \in 1..n |-> m[p][i]])))
Mul == /\ Is("mul") /\ AllDone /\ due > 0 /\ due' = due - 1
       /\ \E v \in {times61(val[Ev.a + 1], val[Ev.b + 1])} :
            /\ Wire(v)
            /\ Holds(\A p \in 1..n : Len(Ev.m[p]) = 2 * d + 1)
            /\ Holds(\A i \in U : IsASharing(D, [p \in 1..n |-> Ev.m[p][i]]))
            /\ \E m \in {Msgs(Ev.m)} : /\ sum61([i \in U |-> sum61(m[i])]) = v
                                       /\ msgs' = Append(msgs, m)
       /\ UNCHANGED <<ses, sent, rcvd, done, pos, opened>>

\* The check phase: the combination of all messages so far, with coefficients
\* that are given where they can be told from what was sent.
Lacks(i, j) == SelectSeq(D.idx[i], LAMBDA c : j \notin D.hold[c])
ValueComps(i, j)  == SelectSeq(Lacks(i, j), LAMBDA c : D.first[c] = i)
DigestComps(i, j) == SelectSeq(Lacks(i, j), LAMBDA c : D.first[c] # i)
\* the combination of the messages: Ev.live are the multiplications that have
\* messages other than zero, Ev.c their coefficients (a witness of the recorder)
Combined == EagerSeq(2 * d + 1, LAMBDA u : EagerSeq(D.comps, LAMBDA c :
              sum61([k \in 1..Len(Ev.live) |-> times61(Ev.c[k], msgs[Ev.live[k] + 1][u][c])])))
Silent(k) == \A u \in U : \A c \in 1..D.comps : msgs[k][u][c] = Zero
Witness == /\ Len(Ev.c) = Len(Ev.live) /\ Holds(\A a \in 1..Len(Ev.c) : elem61(Ev.c[a]))
           /\ LET lives == {Ev.live[a] + 1 : a \in 1..Len(Ev.live)}
              IN /\ lives \subseteq 1..Len(msgs)
                 /\ Holds(\A k \in (1..Len(msgs)) \ lives : Silent(k))
           /\ Cardinality({Ev.c[a] : a \in 1..Len(Ev.c)} \ {Zero}) = Len(Ev.c)
\* where the two lists from i to j end
EndOf(i, j) == With(sent[<<i, j>>], LAMBDA s : With(pos[<<i, j>>] + 1, LAMBDA a :
                 IF i = j /\ ~(a <= Len(s) /\ HasLen(s, a)) THEN pos[<<i, j>>]
                 ELSE With(ListEnd(s, a), LAMBDA b : IF b = 0 THEN -1 ELSE ListEnd(s, b) - 1)))
ListsOk(i, j) ==
  With(sent[<<i, j>>], LAMBDA s : With(pos[<<i, j>>] + 1, LAMBDA a :
    IF i = j THEN EndOf(i, j) \in {pos[<<i, j>>], pos[<<i, j>>] + 8}
    ELSE /\ EndOf(i, j) >= 0
         /\ LenAt(s, a) = (2 * d + 1) * Len(ValueComps(i, j))
         /\ LenAt(s, ListEnd(s, a)) = Len(DigestComps(i, j))))
ValuesOk(m, i, j) ==
  i # j => With(pos[<<i, j>>] + 5, LAMBDA a :
    SameElements(SubSeq(sent[<<i, j>>], a, a + (2 * d + 1) * Len(ValueComps(i, j)) - 1),
                 FlattenSeq([k \in 1..Len(ValueComps(i, j)) |-> [u \in U |-> m[u][ValueComps(i, j)[k]]]])))
PhaseCheck == /\ Is("pcheck") /\ Phase
              /\ Holds(\A x \in Pairs : ListsOk(x[1], x[2]))
              /\ Ev.found => /\ Witness
                             /\ \E m \in {Combined} : Holds(\A x \in Pairs : ValuesOk(m, x[1], x[2]))
              /\ pos' = [x \in Pairs |-> EndOf(x[1], x[2])]
              /\ UNCHANGED <<ses, sent, rcvd, done, val, due, msgs, opened>>

\* the sharings of all wires are handed to somebody who reconstructs them
Open == /\ Is("open") /\ Phase /\ Ev.w = opened /\ opened < Len(val)
        /\ ~Ev.threw /\ Ev.rec = val[opened + 1] /\ Ev.det = val[opened + 1]
        /\ opened' = opened + 1
        /\ UNCHANGED <<ses, sent, rcvd, done, pos, val, due, msgs>>
\* every stream is explained, and has been received, to its end
Fin == /\ Is("fin") /\ Phase /\ Ev.wires = Len(val) /\ opened = Len(val)
       /\ Holds(\A x \in Pairs : pos[x] = Len(sent[x]) /\ rcvd[x] = Len(sent[x]))
       /\ ses' = NoSession
       /\ UNCHANGED <<sent, rcvd, done, pos, val, due, msgs, opened>>
TheEnd == End /\ n = 0 /\ UNCHANGED <<ses, sent, rcvd, done, pos, val, due, msgs, opened>>
Next == Session \/ Send \/ Recv \/ Done \/ Alone \/ PhaseIn \/ In \/ Lin \/ PhaseMul \/ Mul \/ PhaseCheck \/ Open \/ Fin \/ TheEnd
View == l
=============================================================================
