----------------------------- MODULE Group25519 ------------------------------
(* A group of prime order l with its field of scalars, as a register machine   *)
(* over what the operations mean.  A scalar is a polynomial in t = 2^64 of     *)
(* degree at most 3 with small integer coefficients over a small denominator;  *)
(* a point is such a multiple of the generator plus one of a second point of   *)
(* unknown logarithm.  Differences of such values are far smaller than l, so   *)
(* two values agree in the group exactly when they agree here.                 *)
EXTENDS Integers, Sequences, FiniteSets
BOUND == 20000
SR == 1..4     \* scalar registers
PR == 5..8     \* point registers
(* values: c: coefficients (4 for a scalar; 4 of the generator, 4 of the other point), d: denominator *)
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE GcdSeq(_, _)
GcdSeq(c, i) == IF i > Len(c) THEN 0 ELSE Gcd(GcdSeq(c, i + 1), Abs(c[i]))
Norm(c, d) ==
  LET s == IF d < 0 THEN -1 ELSE 1
      g == Gcd(Abs(d), GcdSeq(c, 1)) IN
  [c |-> [i \in 1..Len(c) |-> s * (c[i] \div g)], d |-> Abs(d) \div g]
ZeroS == [c |-> <<0, 0, 0, 0>>, d |-> 1]
ZeroP == [c |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, d |-> 1]
IsZero(v) == \A i \in 1..Len(v.c) : v.c[i] = 0
Small(v) == v.d <= BOUND /\ \A i \in 1..Len(v.c) : Abs(v.c[i]) <= BOUND
(* a + k * b *)
Comb(a, k, b) == Norm([i \in 1..Len(a.c) |-> a.c[i] * b.d + k * (b.c[i] * a.d)], a.d * b.d)
(* the part of v (scalar or half of a point) starting at o, times the scalar s *)
Conv(s, v, o, i) == LET T(j) == IF j <= i THEN s.c[j] * v.c[o + i - j + 1] ELSE 0 IN T(1) + T(2) + T(3) + T(4)
Deg(v, o) == IF v.c[o + 4] # 0 THEN 3 ELSE IF v.c[o + 3] # 0 THEN 2 ELSE IF v.c[o + 2] # 0 THEN 1 ELSE 0
Fits(s, v) == Deg(s, 0) + Deg(v, 0) <= 3 /\ (Len(v.c) = 8 => Deg(s, 0) + Deg(v, 4) <= 3)
Times(s, v) ==
  Norm([i \in 1..Len(v.c) |-> IF i <= 4 THEN Conv(s, v, 0, i) ELSE Conv(s, v, 4, i - 4)], s.d * v.d)
Invertible(s) == Deg(s, 0) = 0 /\ s.c[1] # 0
InvS(s) == Norm(<<s.d, 0, 0, 0>>, s.c[1])
Mono(k, e) == [c |-> [i \in 1..4 |-> IF i = e + 1 THEN k ELSE 0], d |-> 1]
Gen == [c |-> <<1, 0, 0, 0, 0, 0, 0, 0>>, d |-> 1]
Other == [c |-> <<0, 0, 0, 0, 1, 0, 0, 0>>, d |-> 1]
RECURSIVE Pow(_, _)
Pow(s, k) == IF k = 0 THEN Mono(1, 0) ELSE Times(s, Pow(s, k - 1))

(* operators: kinds of destination and arguments, number of forms.             *)
(* l: does it take a list <<[s, p], ...>> of scalar and point registers        *)
O(n, d, a, b, f, l) == [n |-> n, d |-> d, a |-> a, b |-> b, f |-> f, l |-> l]
Ops == {
  O("s_const", "S", "", "", 2, FALSE), O("s_add", "S", "S", "S", 3, FALSE), O("s_sub", "S", "S", "S", 3, FALSE),
  O("s_mul", "S", "S", "S", 3, FALSE), O("s_div", "S", "S", "S", 2, FALSE), O("s_neg", "S", "S", "", 1, FALSE),
  O("s_dbl", "S", "S", "", 2, FALSE), O("s_sq", "S", "S", "", 2, FALSE), O("s_inv", "S", "S", "", 2, FALSE),
  O("s_pow", "S", "S", "", 1, FALSE), O("s_rt", "S", "S", "", 4, FALSE), O("s_sum", "S", "", "", 1, TRUE),
  O("p_gen", "P", "", "", 2, FALSE), O("p_other", "P", "", "", 1, FALSE), O("p_zero", "P", "", "", 2, FALSE),
  O("p_add", "P", "P", "P", 6, FALSE), O("p_sub", "P", "P", "P", 4, FALSE), O("p_neg", "P", "P", "", 1, FALSE),
  O("p_dbl", "P", "P", "", 2, FALSE), O("p_mul", "P", "S", "P", 3, FALSE), O("p_rt", "P", "P", "", 4, FALSE),
  O("p_norm", "P", "P", "", 4, FALSE), O("p_msm", "P", "", "", 3, TRUE), O("p_sum", "P", "", "", 2, TRUE) }
Op(n) == CHOOSE o \in Ops : o.n = n
RegsOf(k) == IF k = "S" THEN SR ELSE PR

RECURSIVE ListOk(_, _, _, _), ListSum(_, _, _, _)
(* sums over the list: op "s_sum" of scalars, "p_sum" of points, "p_msm" of products *)
Item(n, reg, x) == CASE n = "s_sum" -> reg[x.s] [] n = "p_sum" -> reg[x.p] [] OTHER -> Times(reg[x.s], reg[x.p])
ListSum(n, reg, ls, i) == IF i > Len(ls) THEN IF n = "s_sum" THEN ZeroS ELSE ZeroP ELSE Comb(Item(n, reg, ls[i]), 1, ListSum(n, reg, ls, i + 1))
ListOk(n, reg, ls, i) ==
  i > Len(ls) \/ /\ ListOk(n, reg, ls, i + 1)
                 /\ (n = "p_msm" => Fits(reg[ls[i].s], reg[ls[i].p]))
                 /\ Small(Item(n, reg, ls[i])) /\ Small(ListSum(n, reg, ls, i))

(* may the operation be applied (its result is representable) *)
Can(reg, e) ==
  CASE e.op \in {"s_mul"} -> Fits(reg[e.a], reg[e.b])
    [] e.op \in {"p_mul"} -> Fits(reg[e.a], reg[e.b])
    [] e.op = "s_sq" -> Fits(reg[e.a], reg[e.a])
    [] e.op = "s_div" -> Invertible(reg[e.b])
    [] e.op = "s_inv" -> Invertible(reg[e.a])
    [] e.op = "s_pow" -> Deg(reg[e.a], 0) * e.k <= 3 /\ (e.k <= 1 \/ \A i \in 1..4 : Abs(reg[e.a].c[i]) <= 12 /\ reg[e.a].d <= 12)
    [] Op(e.op).l -> ListOk(e.op, reg, e.ls, 1)
    [] OTHER -> TRUE
Result(reg, e) ==
  CASE e.op = "s_const" -> Mono(e.k, e.e)
    [] e.op \in {"s_add", "p_add"} -> Comb(reg[e.a], 1, reg[e.b])
    [] e.op \in {"s_sub", "p_sub"} -> Comb(reg[e.a], -1, reg[e.b])
    [] e.op \in {"s_mul", "p_mul"} -> Times(reg[e.a], reg[e.b])
    [] e.op = "s_div" -> Times(InvS(reg[e.b]), reg[e.a])
    [] e.op \in {"s_neg", "p_neg"} -> Times(Mono(-1, 0), reg[e.a])
    [] e.op \in {"s_dbl", "p_dbl"} -> Times(Mono(2, 0), reg[e.a])
    [] e.op = "s_sq" -> Times(reg[e.a], reg[e.a])
    [] e.op = "s_inv" -> InvS(reg[e.a])
    [] e.op = "s_pow" -> Pow(reg[e.a], e.k)
    [] e.op \in {"s_rt", "p_rt", "p_norm"} -> reg[e.a]
    [] e.op = "p_gen" -> Gen
    [] e.op = "p_other" -> Other
    [] e.op = "p_zero" -> ZeroP
    [] OTHER -> ListSum(e.op, reg, e.ls, 1)
Init0 == [r \in SR \cup PR |-> IF r \in SR THEN ZeroS ELSE ZeroP]

(* ---- bytes ---- *)
\* l = 2^252 + 27742317777372353535851937790883648493, lowest byte first
Order == <<237, 211, 245, 92, 26, 99, 18, 88, 214, 156, 247, 162, 222, 249, 222, 20, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 16>>
RECURSIVE Carry(_, _, _)
Carry(ds, i, x) == IF i > 32 THEN <<>> ELSE LET y == ds[i] + x IN <<y % 256>> \o Carry(ds, i + 1, y \div 256)
Negative(v) == \E i \in 1..4 : v.c[i] < 0 /\ \A j \in (i + 1)..4 : v.c[j] = 0
(* the bytes of a scalar with denominator 1 *)
Bytes(v) ==
  LET neg == Negative(v)
      ds == [i \in 1..32 |-> (IF i % 8 = 1 THEN v.c[i \div 8 + 1] ELSE 0) + (IF neg THEN Order[i] ELSE 0)] IN
  Carry(ds, 1, 0)
(* encodings of 0, 1, ..., 5 times the generator (from the definition of the group) *)
Multiples == <<
 <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>,
 <<226, 242, 174, 10, 106, 188, 78, 113, 168, 132, 169, 97, 197, 0, 81, 95, 88, 227, 11, 106, 165, 130, 221, 141, 182, 166, 89, 69, 224, 141, 45, 118>>,
 <<106, 73, 50, 16, 247, 73, 156, 209, 127, 236, 181, 16, 174, 12, 234, 35, 161, 16, 232, 213, 185, 1, 248, 172, 173, 211, 9, 92, 115, 163, 185, 25>>,
 <<148, 116, 31, 93, 93, 82, 117, 94, 206, 79, 35, 240, 68, 238, 39, 213, 209, 234, 30, 43, 209, 150, 180, 98, 22, 107, 22, 21, 42, 157, 2, 89>>,
 <<218, 128, 134, 39, 115, 53, 139, 70, 111, 250, 223, 224, 179, 41, 58, 179, 217, 253, 83, 197, 234, 108, 149, 83, 88, 245, 104, 50, 45, 175, 106, 87>>,
 <<232, 130, 177, 49, 1, 107, 82, 193, 211, 51, 112, 128, 24, 124, 247, 104, 66, 62, 252, 203, 181, 23, 187, 73, 90, 184, 18, 196, 22, 15, 244, 78>> >>
(* ---- questions that leave the registers alone ---- *)
(* "q_sqrt": the square root of a register's square; "q_leg": the quadratic    *)
(* character of 2^k times a square (2 is not a square modulo l);               *)
(* "q_scalar": decoding l + k; "q_point": decoding a string that encodes no    *)
(* point; "q_alias": decoding the encoding of a point register after (k = 1)    *)
(* setting its top bit, (2) taking the negative field element, (3) changing    *)
(* its lowest bit, (4) cutting off its last byte; "q_sbits": the same for a     *)
(* scalar and its bits 253, 254, 255 (1, 2, 3), its last byte (4) and twice the *)
(* order added (5); "q_root": the declared root of unity and generator                   *)
BadPoints == <<
 [i \in 1..32 |-> IF i = 1 THEN 0 ELSE 255], [i \in 1..32 |-> IF i = 32 THEN 127 ELSE 255], [i \in 1..32 |-> IF i = 1 THEN 243 ELSE IF i = 32 THEN 127 ELSE 255],
 [i \in 1..32 |-> IF i = 1 THEN 237 ELSE IF i = 32 THEN 127 ELSE 255], [i \in 1..32 |-> IF i = 1 THEN 1 ELSE 0],
 [i \in 1..32 |-> IF i = 1 THEN 1 ELSE IF i = 32 THEN 127 ELSE 255] >>
Answer(reg, e) ==
  CASE e.op = "q_sqrt" -> "root"
    [] e.op = "q_leg" -> IF IsZero(reg[e.a]) THEN "zero" ELSE IF e.k % 2 = 0 THEN "square" ELSE "nonsquare"
    [] e.op = "q_scalar" -> IF e.k < 0 THEN "same" ELSE "error"
    [] e.op = "q_point" -> "error"
    [] e.op \in {"q_alias", "q_sbits"} -> "error"
    [] e.op = "q_root" -> "order4 nonsquare"
==============================================================================
