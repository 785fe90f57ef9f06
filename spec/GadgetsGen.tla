----------------------------- MODULE GadgetsGen ------------------------------
(* Every instance of the small gadgets within the bounds, one per initial      *)
(* state; tables and values that are too many to enumerate are drawn.          *)
EXTENDS Gadgets, TLC, Json, IOUtils
WHAT == IOEnv.WHAT
N == atoi(IOEnv.N)
Kind(b) == [t : {"c"}, b : {0, 1}] \cup [t : {"i", "n"}, b : 0..(b - 1)]
Vals(b) == [1..b -> {0, 1}]
Base == [op |-> "", k |-> <<>>, v |-> <<>>, inp |-> <<>>, x |-> <<>>, tx |-> <<>>, ty |-> <<>>, eqs |-> <<>>, n |-> 0, p |-> 7, full |-> 0]
Zero(v) == IF \A i \in 1..Len(v) : v[i] = 0 THEN 1 ELSE 0
(* bits that no operand mentions stay at zero *)
Tidy(k, v) == \A i \in 1..Len(v) : v[i] = 1 => \E j \in 1..Len(k) : k[j].t # "c" /\ k[j].b = i - 1
Inp == [i \in 1..3 |-> i % 2]
InpOf(b) == [i \in 1..b |-> i % 2]
Unary == {[Base EXCEPT !.op = o, !.k = <<k>>, !.v = v, !.inp = InpOf(1), !.full = Zero(v), !.p = 13] : o \in {"not", "id"}, k \in Kind(1), v \in Vals(1)}
Alloc == {[Base EXCEPT !.op = "alloc", !.v = v, !.inp = i, !.full = 1, !.p = 13] : v \in Vals(2), i \in Vals(2)}
IsK == [t : {"i"}, b : 0..1]
Cond == {[Base EXCEPT !.op = "cond", !.k = <<[t |-> "i", b |-> 0]>>, !.v = <<v>>, !.inp = <<i>>, !.x = <<x>>, !.full = 1, !.p = 13] : v \in {0, 1}, i \in {0, 1}, x \in {0, 1}}
Binary == {q \in {[Base EXCEPT !.op = o, !.k = <<j, k>>, !.v = v, !.inp = InpOf(2), !.full = Zero(v), !.p = 13] : o \in {"xor", "and", "eq"}, j \in Kind(2), k \in Kind(2), v \in Vals(2)} : Tidy(q.k, q.v)}
BinaryA == {q \in {[Base EXCEPT !.op = o, !.k = <<j, k>>, !.v = v, !.inp = InpOf(2), !.full = Zero(v), !.p = 13] : o \in {"axor", "aand", "aandnot", "anor"}, j \in IsK, k \in IsK, v \in Vals(2)} : Tidy(q.k, q.v)}
Ternary == {q \in {[Base EXCEPT !.op = o, !.k = <<i, j, k>>, !.v = v, !.inp = InpOf(3), !.full = Zero(v)] : o \in {"ch", "maj"}, i \in Kind(3), j \in Kind(3), k \in Kind(3), v \in Vals(3)} : Tidy(q.k, q.v)}
R16 == RandomElement(0..65535)
U64 == {[Base EXCEPT !.op = "u64", !.x = x, !.p = p] : x \in {<<0, 0, 0, 0>>, <<65535, 65535, 65535, 65535>>, <<1, 0, 0, 32768>>, <<R16, R16, R16, R16>>, <<R16, 0, R16, 65535>>}, p \in {13, 97}}
Field == {[Base EXCEPT !.op = "field", !.x = <<x>>, !.p = p] : x \in 0..16, p \in {17}} \cup {[Base EXCEPT !.op = "field", !.x = <<x>>, !.p = 97] : x \in 0..96}
         \cup {[Base EXCEPT !.op = "field", !.x = <<x>>, !.p = 257] : x \in {0, 1, 255, 256, 128, 170}}
Fr == {[Base EXCEPT !.op = "fr", !.x = <<x, i, z>>, !.p = 13, !.full = 1] : x \in {0, 1, 2, 12, 7}, i \in {0, 1}, z \in {0, 1}}
SetP03 == Unary \cup Alloc \cup Cond \cup Binary \cup BinaryA \cup Ternary \cup U64 \cup Field \cup Fr
Rnd(p, n) == [i \in 1..n |-> RandomElement(0..(p - 1))]
(* tables: distinct, repeated and zero entries, in the first places and elsewhere *)
Tab(c, n, p) == CASE c % 8 = 0 -> [i \in 1..n |-> (i * i + 1) % p]
                  [] c % 8 = 1 -> [i \in 1..n |-> IF i % 2 = 0 THEN 0 ELSE p - i]
                  [] c % 8 = 2 -> [i \in 1..n |-> IF i % 2 = 1 THEN 0 ELSE i]
                  [] c % 8 = 3 -> [i \in 1..n |-> p - 1]
                  [] c % 8 = 4 -> [i \in 1..n |-> IF i = n THEN 1 ELSE 0]
                  [] c % 8 = 5 -> [i \in 1..n |-> RandomElement(0..2)]
                  [] OTHER -> Rnd(p, n)
Lookup == {q \in {[Base EXCEPT !.op = o, !.k = k, !.v = v, !.inp = InpOf(2), !.full = Zero(v), !.p = 13, !.n = c] :
              o \in {"lookup2_x", "lookup2_xy"}, k \in [1..2 -> Kind(2)], v \in Vals(2), c \in 1..N} : Tidy(q.k, q.v)}
     \cup {[Base EXCEPT !.op = "lookup1_x", !.k = <<k>>, !.v = v, !.inp = InpOf(1), !.full = Zero(v), !.p = 13, !.n = c] : k \in Kind(1), v \in Vals(1), c \in 1..(N + 3)}
     \cup {q \in {[Base EXCEPT !.op = o, !.k = k, !.v = v, !.inp = InpOf(3), !.full = Zero(v), !.p = 13, !.n = c] :
              o \in {"lookup3_x", "lookup3_xy"}, k \in [1..3 -> Kind(3)], v \in Vals(3), c \in 1..N} : Tidy(q.k, q.v)}
Filled(q) == LET m == 2 ^ Len(q.k)  c == q.n + RandomElement(0..7)  d == RandomElement(0..7) IN [q EXCEPT !.tx = Tab(c, m, q.p), !.ty = Tab(d, m, q.p)]
RangeOf(n, p) == {[Base EXCEPT !.op = "range", !.x = <<a, b>>, !.n = n, !.p = p, !.full = 1] : a \in 0..(2 ^ n - 1), b \in 0..(2 ^ n - 1)}
Edge(n) == {0, 1, 2 ^ (n - 1) - 1, 2 ^ (n - 1), 2 ^ n - 2, 2 ^ n - 1}
RangeEdge(n, p) == {[Base EXCEPT !.op = "range", !.x = <<a, b>>, !.n = n, !.p = p, !.full = 1] : a \in Edge(n) \cup {RandomElement(0..(2 ^ n - 1))}, b \in Edge(n) \cup {RandomElement(0..(2 ^ n - 1))}}
Range == RangeOf(1, 5) \cup RangeOf(1, 7) \cup RangeOf(2, 13) \cup RangeOf(3, 17) \cup (IF N > 1 THEN RangeOf(4, 97) \cup RangeOf(5, 97) \cup RangeEdge(7, 257) \cup RangeOf(6, 257) ELSE RangeEdge(4, 97) \cup RangeEdge(5, 97))
(* batches of equalities between sums below 2^n, over fields that hold one to eight of them *)
Side(d, n, b) == [j \in 1..RandomElement(1..n) |-> <<RandomElement(0..(b - 1)), 2 ^ (j - 1)>>]
Equality(d, b, cap) == LET n == RandomElement(1..(cap - 1)) IN [n |-> n, l |-> Side(d, n, b), r |-> IF RandomElement(1..4) = 1 THEN <<>> ELSE Side(d, n, b)]
Multi(i) == LET p == <<97, 257, 12289>>[(i % 3) + 1]  b == RandomElement(2..4)  cap == <<6, 8, 13>>[(i % 3) + 1] IN
  [Base EXCEPT !.op = "multieq", !.p = p, !.full = 1, !.n = i, !.inp = InpOf(b), !.v = [j \in 1..b |-> RandomElement({0, 1})],
     !.eqs = [j \in 1..RandomElement(1..(IF i % 2 = 0 THEN 3 ELSE 8)) |-> Equality(i + j, b, IF RandomElement(1..3) = 1 THEN cap ELSE 4)]]
VARIABLES q
Insts == CASE WHAT = "P03" -> SetP03 [] WHAT = "P07" -> Lookup [] WHAT = "P08" -> Range [] WHAT = "P04" -> 1..N
Init == q \in Insts
Next == UNCHANGED q
Spec == Init /\ [][Next]_q
Emit == PrintT("@INST@" \o ToJson(CASE WHAT = "P07" -> Filled(q) [] WHAT = "P04" -> Multi(q) [] OTHER -> q))
==============================================================================
