-------------------------------- MODULE Prg --------------------------------
(***************************************************************************)
(* The generator as a state machine: every object is a seed and the number *)
(* of the next unused block.  Counters are pairs << hi, lo >> in base Base *)
(* (TLC integers have 32 bits).                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS BS,          \* bytes in a block
          Base,
          Enc(_, _),   \* Enc(seed, counter) = the block, BS bytes
          Start        \* the configured initial counter

VARIABLE objs          \* object -> [seed, ctr]

Plus(c, n) == LET s == c[2] + n IN << c[1] + (s \div Base), s % Base >>
Blocks(k) == (k + BS - 1) \div BS

Block(ob, i) == Enc(ob.seed, Plus(ob.ctr, i))        \* i-th block from here
\* The first k bytes of the unused stream.
Bytes(ob, k) == [i \in 1..k |-> Block(ob, (i - 1) \div BS)[((i - 1) % BS) + 1]]

Create(o, seed) == objs' = (o :> [seed |-> seed, ctr |-> Start]) @@ objs
Copy(o, from)   == objs' = (o :> objs[from]) @@ objs
Reset(o)        == objs' = [objs EXCEPT ![o].ctr = Start]
Take(o, k)      == objs' = [objs EXCEPT ![o].ctr = Plus(@, Blocks(k))]
Refuse(o)       == UNCHANGED objs
=============================================================================
