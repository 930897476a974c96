------------------------------ MODULE PrgTrace ------------------------------
(* Trace specification of the generator (C13).                              *)
EXTENDS TraceBase, Aes
VARIABLE objs
\* The block with number c: the counter (8 bytes, little-endian), then the
\* nonce (8 bytes, little-endian).  Both are settings of the build: the first
\* line says what the build was asked for, and whether they are the defaults.
CtrBytes(c) == << c[2] % 256, (c[2] \div 256) % 256, c[2] \div 65536,
                  c[1] % 256, (c[1] \div 256) % 256, (c[1] \div 65536) % 256, c[1] \div 16777216, 0 >>
Default == << 239, 205, 171, 137, 103, 69, 35, 1 >>
Nonce == IF Trace[1].dflt THEN Default ELSE Trace[1].nonce
First == IF Trace[1].dflt THEN <<0, 0>> ELSE Trace[1].start
enc(seed, c) == AesEncrypt(seed, CtrBytes(c) \o Nonce)
Base24 == 16777216
INSTANCE Prg WITH BS <- 16, Base <- Base24, Enc <- enc, Start <- First
ZeroSeed == [i \in 1..16 |-> 0]

Init == l = 1 /\ objs = <<>>
O == objs[Ev.o]
Conf == Is("conf") /\ l = 1 /\ UNCHANGED objs
New  == Is("new") /\ Ev.sizes = <<16, 16>> /\ Ev.ctr = First
        /\ Ev.seed = (IF Ev.dflt THEN ZeroSeed ELSE Ev.given)
        /\ Create(Ev.o, Ev.seed)
Cpy  == Is("copy") /\ Copy(Ev.o, Ev.from)
Rst  == Is("reset") /\ Reset(Ev.o) /\ Ev.ctr = First
\* clean: the bytes after the k requested ones were not touched
Next_ == /\ Is("next") /\ Ev.ok /\ Ev.clean
         /\ \A s \in {Ev.bytes} : Holds(Len(s) = Ev.k /\
              \A b \in 0..(Blocks(Ev.k) - 1) :
                \E blk \in {Block(O, b)} :
                  \A i \in 1..16 : 16 * b + i <= Ev.k => s[16 * b + i] = blk[i])
         /\ Take(Ev.o, Ev.k) /\ objs'[Ev.o].ctr = Ev.ctr
\* blocks of a request of k = << hi, lo >> bytes
BigBlocks(k) == k[1] * (Base24 \div 16) + Blocks(k[2])
\* a large request, of which some blocks were recorded
Big  == /\ Is("big") /\ Ev.ok
        /\ Holds(\A j \in 1..Len(Ev.at) :
              Ev.at[j][2] = SubSeq(Block(O, Ev.at[j][1]), 1, Len(Ev.at[j][2])))
        /\ objs' = [objs EXCEPT ![Ev.o].ctr = Plus(@, BigBlocks(Ev.k))] /\ objs'[Ev.o].ctr = Ev.ctr
Toobig == /\ Is("refused") /\ ~Ev.ok /\ Ev.clean /\ Refuse(Ev.o) /\ Ev.ctr = O.ctr
Peek == Is("peek") /\ Ev.ctr = O.ctr /\ Ev.seed = O.seed /\ UNCHANGED objs
Next == Conf \/ New \/ Cpy \/ Rst \/ Next_ \/ Big \/ Toobig \/ Peek \/ (End /\ UNCHANGED objs)
View == l
=============================================================================
