---------------------------- MODULE FieldHashGen -----------------------------
(* Byte strings for the field hashes: chunks below and above the modulus,      *)
(* incomplete chunks, one to five blocks.                                      *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
N == atoi(IOEnv.N)
Prime(i) == <<97, 12289, 257, 7>>[((i \div 3) % 4) + 1]
Byte(i, p, c) == LET k == (i - 1) % 8 IN
  CASE c = 1 -> RandomElement(0..255)
    [] c = 2 -> IF k = 0 THEN RandomElement({0, 1, (p - 1) % 256, p % 256}) ELSE IF k = 1 THEN p \div 256 ELSE 0
    [] OTHER -> IF k = 0 THEN RandomElement(0..255) ELSE IF k = 1 THEN RandomElement(0..(p \div 256)) ELSE 0
Kind(d) == RandomElement({1, 2, 3, 4, 5, 6})
Bytes(p, n) == LET ks == [j \in 1..6 |-> Kind(j)] IN [i \in 1..n |-> Byte(i, p, ks[((i - 1) \div 8) + 1])]
Lens == <<1, 7, 8, 9, 16, 17, 24, 31, 40>>
Inst(i) == LET p == Prime(i) IN
  [h |-> <<"mimc", "poseidon", "rescue">>[(i % 3) + 1], p |-> p, full |-> IF i <= 3 THEN 1 ELSE 0,
   b |-> Bytes(p, IF i <= 3 THEN 16 ELSE Lens[RandomElement(1..Len(Lens))])]
VARIABLES idx
Init == idx \in 1..N
Next == UNCHANGED idx
Spec == Init /\ [][Next]_idx
Emit == PrintT("@INST@" \o ToJson(Inst(idx)))
==============================================================================
