----------------------------- MODULE FieldHash -------------------------------
(* MiMC, Poseidon and Rescue over a small prime field, with the round          *)
(* constants the code publishes: the block functions, chained over the chunks  *)
(* of a byte string.                                                           *)
EXTENDS Rank1, TLC
\* (the comparisons with zero make TLC evaluate each round before the next)
RECURSIVE PowP(_, _, _)
PowP(x, n, p) == IF n = 0 THEN 1 ELSE LET h == PowP(x, n \div 2, p)  s == (h * h) % p IN IF n % 2 = 1 THEN (s * x) % p ELSE s
(* ------------------------------- MiMC ------------------------------------- *)
RECURSIVE MimcRounds(_, _, _, _, _)
MimcRounds(xl, xr, c, p, i) == IF i > Len(c) \/ xl < 0 THEN xl ELSE MimcRounds(TLCEval((PowP((xl + c[i]) % p, 3, p) + xr) % p), xl, c, p, i + 1)
Mimc(xl, xr, C, p) == MimcRounds(xl, xr, C.mimc, p, 1)
(* ------------------------------ Poseidon ---------------------------------- *)
Mix(m, s, p) == TLCEval([j \in 1..3 |-> (m[j][1] * s[1] + m[j][2] * s[2] + m[j][3] * s[3]) % p])
HALF == 4   \* the one round with a single S-box comes after four full ones
RECURSIVE PoseidonRounds(_, _, _, _, _)
PoseidonRounds(s, ark, mds, p, i) == IF i > Len(ark) \/ s[1] < 0 THEN s[1] ELSE
  LET a == TLCEval([j \in 1..3 |-> (s[j] + ark[i][j]) % p])
      b == TLCEval([j \in 1..3 |-> IF i - 1 # HALF \/ j = 3 THEN PowP(a[j], 5, p) ELSE a[j]])
  IN PoseidonRounds(Mix(mds, b, p), ark, mds, p, i + 1)
Poseidon(xl, xr, C, p) == PoseidonRounds(<<xl, xr, 0>>, C.ark, C.pmds, p, 1)
(* ------------------------------- Rescue ----------------------------------- *)
\* the exponent of the inverse S-box, most significant sixteen bits first
INV == <<9910, 46374, 10408, 45908, 37690, 63622, 34458, 43287, 21340, 56217, 37780, 23053, 53223, 63401, 36044, 52429>>
RECURSIVE Reduce(_, _, _)
Reduce(d, m, i) == IF i = 0 THEN 0 ELSE (Reduce(d, m, i - 1) * (65536 % m) + d[i]) % m
InvPow(x, p) == IF x = 0 THEN 0 ELSE PowP(x, TLCEval(Reduce(INV, p - 1, Len(INV))), p)
RECURSIVE RescueRounds(_, _, _, _, _)
RescueRounds(s, rc, mds, p, i) == IF i > Len(rc) \/ s[1] < 0 THEN s[1] ELSE
  LET b == TLCEval([j \in 1..3 |-> IF i % 2 = 0 THEN PowP(s[j], 5, p) ELSE InvPow(s[j], p)])
      m == Mix(mds, b, p)
  IN RescueRounds(TLCEval([j \in 1..3 |-> (m[j] + rc[i][j]) % p]), rc, mds, p, i + 1)
Rescue(xl, xr, C, p) == RescueRounds(TLCEval([j \in 1..3 |-> (<<xl, xr, 0>>[j] + C.rc[1][j]) % p]), C.rc, C.rmds, p, 2)
(* ------------------------------ chaining ---------------------------------- *)
Block(h, xl, xr, C, p) == CASE h = "mimc" -> Mimc(xl, xr, C, p) [] h = "poseidon" -> Poseidon(xl, xr, C, p) [] h = "rescue" -> Rescue(xl, xr, C, p)
\* eight bytes make an element; what is not the canonical form of one, an incomplete chunk included, stands for zero
ChunkVal(b, k, p) == LET at(i) == b[8 * (k - 1) + i] IN
  IF 8 * k > Len(b) \/ \E i \in 4..8 : at(i) # 0 THEN 0
  ELSE LET v == at(1) + 256 * at(2) + 65536 * at(3) IN IF v < p THEN v ELSE 0
Chunks(b, p) == [k \in 1..((Len(b) + 7) \div 8) |-> ChunkVal(b, k, p)]
RECURSIVE Chain(_, _, _, _, _, _)
Chain(h, acc, v, C, p, i) == IF i > Len(v) \/ acc < 0 THEN acc ELSE Chain(h, TLCEval(Block(h, acc, v[i], C, p)), v, C, p, i + 1)
FieldHash(h, b, C, p) == Chain(h, 0, TLCEval(Chunks(b, p)), C, p, 1)
(* a wire is fixed by the wires before it: one of the constraints it closes gives its value, or only one value fits them all *)
UniqueStep(sys, cl, v, k, p) ==
  \/ \E i \in cl : Coef(sys[i][2], k) = 0 /\ Coef(sys[i][3], k) = 0 /\ Coef(sys[i][4], k) # 0
  \/ \E i \in cl : sys[i][3] = <<<<0, 1>>>> /\ (Coef(sys[i][2], k) - Coef(sys[i][4], k)) % p # 0
==============================================================================
