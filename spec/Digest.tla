------------------------------- MODULE Digest --------------------------------
(* What the digests of circuits and parameters stand for in a transcript.      *)
(* Two objects with the same contents have the same digest; two objects that   *)
(* mean something different have different ones.  Representations of the same  *)
(* meaning (order of terms, zero terms, padding rows, operand order of a       *)
(* commutative gate) may or may not share a digest.                            *)
EXTENDS Integers, Sequences, FiniteSets

(* ---- constraint systems: [ni, na, cons], terms <<kind, index, coefficient>> *)
RECURSIVE Coef(_, _, _)
Coef(lc, k, i) == IF lc = <<>> THEN 0 ELSE (IF lc[1][1] = k /\ lc[1][2] = i THEN lc[1][3] ELSE 0) + Coef(Tail(lc), k, i)
NormLc(lc) ==
  LET vars == {<<lc[j][1], lc[j][2]>> : j \in 1..Len(lc)}
  IN {t \in {<<v[1], v[2], Coef(lc, v[1], v[2])>> : v \in vars} : t[3] # 0}
RECURSIVE Pow2Up(_, _)
Pow2Up(n, p) == IF p >= n THEN p ELSE Pow2Up(n, 2 * p)
Empty == [a |-> {}, b |-> {}, c |-> {}]
NormR1CS(x) ==
  [ni |-> x.ni, na |-> x.na,
   rows |-> [j \in 1..Pow2Up(Len(x.cons), 1) |-> IF j > Len(x.cons) THEN Empty
             ELSE [a |-> NormLc(x.cons[j].a), b |-> NormLc(x.cons[j].b), c |-> NormLc(x.cons[j].c)]]]

(* ---- layered circuits: [ni, na, layers], gates <<op, left, right>> *)
Max2(a, b) == IF a > b THEN a ELSE b
NormGate(g) == IF g[2] <= g[3] THEN g ELSE <<g[1], g[3], g[2]>>
NormLayered(x) ==
  [half |-> Pow2Up(Max2(x.ni, x.na), 1),
   layers |-> [d \in 1..Len(x.layers) |-> [g \in 1..Len(x.layers[d]) |-> NormGate(x.layers[d][g])]]]

Meaning(kind, x) == CASE kind = "r1cs" -> NormR1CS(x) [] kind = "layered" -> NormLayered(x) [] OTHER -> x

(* a digest against those of the same family so far: s = [x, m, h] *)
Binds(seen, kind, x, h) ==
  LET m == Meaning(kind, x) IN \A s \in seen : (s.x = x => s.h = h) /\ (s.m # m => s.h # h)

(* ---- absorbing a matrix (a list of rows of symbols) with and without a frame for each row *)
RECURSIVE Flat(_)
Flat(rows) == IF rows = <<>> THEN <<>> ELSE rows[1] \o Flat(Tail(rows))
RECURSIVE Framed(_)
Framed(rows) == IF rows = <<>> THEN <<>> ELSE <<Len(rows[1])>> \o rows[1] \o Framed(Tail(rows))
==============================================================================
