------------------------------ MODULE HashAlgo ------------------------------
(***************************************************************************)
(* How the hash absorbs: words of WB bytes, Cut words in a block, a partly  *)
(* filled word kept between updates.  Bytes are represented by their        *)
(* position in the message, so that every misplaced, lost or repeated byte  *)
(* shows; absorbed is what has been mixed into the state, word by word.     *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS WB, Cut
VARIABLES absorbed,   \* sequence of << word of the block, bytes >>, "P" for a permutation
          saved,      \* bytes of the unfinished word
          word,       \* mWordIndex
          total       \* bytes fed so far
vars == <<absorbed, saved, word, total>>
Init == absorbed = <<>> /\ saved = <<>> /\ word = 0 /\ total = 0

PutWord(st, bytes) ==
  LET a == Append(st.absorbed, << st.word, bytes >>) IN
  IF st.word + 1 = Cut THEN [st EXCEPT !.absorbed = Append(a, << -1, <<>> >>), !.word = 0]
  ELSE [st EXCEPT !.absorbed = a, !.word = @ + 1]
RECURSIVE PutWords(_, _, _, _)
PutWords(st, from, k, n) ==
  IF k = n THEN st
  ELSE PutWords(PutWord(st, [i \in 1..WB |-> from + k * WB + i]), from, k + 1, n)

Update(n) ==
  LET tail == (WB - Len(saved)) % WB
      st0  == [absorbed |-> absorbed, word |-> word]
  IN
  /\ total' = total + n
  /\ IF n < tail
     THEN saved' = saved \o [i \in 1..n |-> total + i] /\ UNCHANGED <<absorbed, word>>
     ELSE LET st1 == IF tail > 0 THEN PutWord(st0, saved \o [i \in 1..tail |-> total + i]) ELSE st0
              rest == n - tail
              ws  == rest \div WB
              st2 == PutWords(st1, total + tail, 0, ws)
          IN /\ absorbed' = st2.absorbed /\ word' = st2.word
             /\ saved' = [i \in 1..(rest % WB) |-> total + tail + ws * WB + i]
=============================================================================
