------------------------------ MODULE WordsGen -------------------------------
(* Word programs and hash inputs, drawn at random within the bounds.           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
WHAT == IOEnv.WHAT
N == atoi(IOEnv.N)
Half(d) == LET c == RandomElement(1..6) IN CASE c = 1 -> 0 [] c = 2 -> 65535 [] c = 3 -> 32768 [] OTHER -> RandomElement(0..65535)
W(d) == <<Half(d), Half(d)>>
Bits(n) == [i \in 1..n |-> RandomElement({0, 1})]
(* kinds of the bits of an operand: all alike, at random, or two runs of one kind each *)
Kinds(n) ==
  LET c == RandomElement(1..8)  a == RandomElement(0..2)  b == RandomElement(0..2)
      s == IF n < 2 THEN n ELSE RandomElement({1, 8, 16, 24, 31, n - 1, RandomElement(1..n)})
  IN TLCEval([i \in 1..n |-> CASE c = 1 -> 1 [] c = 2 -> 0 [] c = 3 -> 2 [] c \in 4..6 -> (IF i <= s THEN a ELSE b) [] OTHER -> RandomElement(0..2)])
Op0 == [op |-> "", a |-> <<>>, by |-> 0, w |-> <<0, 0>>, k |-> <<>>, v |-> <<>>, g |-> <<>>]
Source(d) == LET c == RandomElement(1..5) IN
  CASE c \in {1, 2} -> [Op0 EXCEPT !.op = "alloc", !.w = W(d)]
    [] c = 3 -> [Op0 EXCEPT !.op = "const", !.w = W(d)]
    [] c = 4 -> [Op0 EXCEPT !.op = "bits", !.k = Kinds(32), !.v = Bits(32)]
    [] c = 5 -> [Op0 EXCEPT !.op = "bitsbe", !.k = Kinds(32), !.v = Bits(32)]
Pick(n) == RandomElement(0..(n - 1))
Sum(n) == [i \in 1..RandomElement(2..(IF RandomElement(1..3) = 1 THEN 10 ELSE 4)) |-> Pick(n)]
Derived(n) == LET o == RandomElement({"le", "be", "rev", "rotr", "shr", "xor", "xor", "ch", "maj", "add", "add", "add", "add"}) IN
  CASE o \in {"le", "be", "rev"} -> [Op0 EXCEPT !.op = o, !.a = <<Pick(n)>>]
    [] o = "rotr" -> [Op0 EXCEPT !.op = o, !.a = <<Pick(n)>>, !.by = RandomElement(0..70)]
    [] o = "shr" -> [Op0 EXCEPT !.op = o, !.a = <<Pick(n)>>, !.by = RandomElement(0..31)]
    [] o = "xor" -> [Op0 EXCEPT !.op = o, !.a = <<Pick(n), Pick(n)>>]
    [] o \in {"ch", "maj"} -> [Op0 EXCEPT !.op = o, !.a = <<Pick(n), Pick(n), Pick(n)>>]
    [] o = "add" -> [Op0 EXCEPT !.op = o, !.g = [i \in 1..RandomElement(1..(IF RandomElement(1..3) = 1 THEN 9 ELSE 3)) |-> Sum(n)]]
Base == [op |-> "", f |-> "gold", full |-> 0, ops |-> <<>>, k |-> <<>>, v |-> <<>>, pers |-> <<0, 0, 0, 0, 0, 0, 0, 0>>]
FieldOf(n) == IF n % 2 = 0 THEN "gold" ELSE "fr"
Prog(n) == [Base EXCEPT !.op = "program", !.f = FieldOf(n), !.full = IF n % 6 = 0 THEN 1 ELSE 0,
   !.ops = LET m == RandomElement(2..4) IN [i \in 1..(m + RandomElement(1..6)) |-> IF i <= m THEN Source(i) ELSE Derived(i - 1)]]
Lens == <<0, 1, 3, 4, 31, 55, 56, 57, 63, 64, 65, 100, 119, 120, 128, 129, 180>>
(* message lengths across the block and padding boundaries; full systems for short messages of allocated bits *)
Msg(n) == LET o == CASE n % 5 \in {0, 1} -> "sha256" [] n % 5 = 2 -> "shablock" [] OTHER -> "blake2s"
              len == IF o = "shablock" THEN 64 ELSE IF n <= 2 * Len(Lens) THEN Lens[((n - 1) % Len(Lens)) + 1] ELSE RandomElement(0..140)
          IN [Base EXCEPT !.op = o, !.f = FieldOf(n), !.k = Kinds(8 * len), !.v = Bits(8 * len),
                 !.pers = IF RandomElement(1..3) = 1 THEN [i \in 1..8 |-> 0] ELSE [i \in 1..8 |-> RandomElement(0..255)]]
(* many blocks: constants, so that only the last block costs constraints        *)
Longs == <<193, 256, 200, 257, 300, 320, 448, 500, 1100, 8200>>
Long(n) == LET len == Longs[n] IN
  [Base EXCEPT !.op = IF n % 2 = 1 THEN "blake2s" ELSE IF n = 6 THEN "blake2s" ELSE "sha256", !.f = FieldOf(n), !.v = Bits(8 * len),
     !.k = [i \in 1..(8 * len) |-> IF i > 8 * len - n THEN RandomElement(0..2) ELSE 0],
     !.pers = [i \in 1..8 |-> RandomElement(0..255)]]
Full(n) == LET o == IF n = 1 THEN "sha256" ELSE IF n = 2 THEN "blake2s" ELSE "shablock"
               len == IF n = 3 THEN 64 ELSE 1
           IN [Base EXCEPT !.op = o, !.f = IF n = 2 THEN "fr" ELSE "gold", !.full = 1, !.k = [i \in 1..(8 * len) |-> 1 + (i % 2)], !.v = Bits(8 * len)]
VARIABLES idx
Init == idx \in 1..N
Next == UNCHANGED idx
Spec == Init /\ [][Next]_idx
Emit == PrintT("@INST@" \o ToJson(CASE WHAT = "P04" -> Prog(idx) [] WHAT = "P05" -> (IF idx > 2 * Len(Lens) /\ idx <= 2 * Len(Lens) + Len(Longs) THEN Long(idx - 2 * Len(Lens)) ELSE Msg(idx)) [] WHAT = "P05F" -> Full(idx)))
==============================================================================
