-------------------------------- MODULE ASVC ---------------------------------
(* Aggregatable subvector commitments (ePrint 2020/527), in the exponents: a   *)
(* group element is its discrete logarithm, a pairing is a product.  K is the  *)
(* key: the prime p, the domain size n, its generator om, the trapdoor tau and *)
(* the logarithms g, h of the generators of G1 and G2.                         *)
EXTENDS FpArith
W(K, i) == Pow(K.om, i, K.p)
ATau(K) == Sub(Pow(K.tau, K.n, K.p), 1, K.p)
Lagrange(K, i) == LET p == K.p IN Frac(Mul(Frac(W(K, i), K.n % p, p), ATau(K), p), Sub(K.tau, W(K, i), p), p)
Powers(K) == [k \in 1..(K.n + 1) |-> Mul(K.g, Pow(K.tau, k - 1, K.p), K.p)]
PowersH(K) == [k \in 1..(K.n + 1) |-> Mul(K.h, Pow(K.tau, k - 1, K.p), K.p)]
UpdA(K, i) == Mul(K.g, Frac(ATau(K), Sub(K.tau, W(K, i), K.p), K.p), K.p)
UpdU(K, i) == Mul(K.g, Frac(Sub(Lagrange(K, i), 1, K.p), Sub(K.tau, W(K, i), K.p), K.p), K.p)
\* the committed polynomial at tau; vec may be shorter than n
Phi(K, vec) == Total([i \in 1..Len(vec) |-> Mul(vec[i], Lagrange(K, i - 1), K.p)], K.p)
CommitOf(K, vec) == Mul(K.g, Phi(K, vec), K.p)
\* vanishing polynomial of the positions and interpolant of the claims, at tau
Van(K, pts) == Product([j \in 1..Len(pts) |-> Sub(K.tau, W(K, pts[j]), K.p)], K.p)
Others(K, pts, j) == Product([k \in 1..Len(pts) |-> IF k = j THEN 1 ELSE Sub(W(K, pts[j]), W(K, pts[k]), K.p)], K.p)
Claim(K, pts, vals) == LET p == K.p IN
  Total([j \in 1..Len(pts) |-> Mul(vals[j], Frac(Frac(Van(K, pts), Sub(K.tau, W(K, pts[j]), p), p), Others(K, pts, j), p), p)], p)
ValueAt(vec, i) == IF i < Len(vec) THEN vec[i + 1] ELSE 0
ValuesAt(vec, pts) == [j \in 1..Len(pts) |-> ValueAt(vec, pts[j])]
ProofOf(K, vec, pts) == Mul(K.g, Frac(Sub(Phi(K, vec), Claim(K, pts, ValuesAt(vec, pts)), K.p), Van(K, pts), K.p), K.p)
(* what the update and aggregation algorithms do *)
UpdCommit(K, c, i, d) == Add(c, Mul(d, Mul(K.g, Lagrange(K, i), K.p), K.p), K.p)
UpdProof(K, w, i, j, d) == LET p == K.p IN
  IF i = j THEN Add(w, Mul(d, UpdU(K, i), p), p)
  ELSE LET c1 == Inv(Sub(W(K, j), W(K, i), p), p)
           wij == Add(Mul(UpdA(K, j), c1, p), Mul(UpdA(K, i), Sub(0, c1, p), p), p)
       IN Add(w, Mul(d, Mul(wij, Frac(W(K, j), K.n % p, p), p), p), p)
Aggregate(K, pts, ws) == Total([j \in 1..Len(pts) |-> Mul(ws[j], Inv(Others(K, pts, j), K.p), K.p)], K.p)
Distinct(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
(* the verdicts *)
Verify(K, c, pts, vals, w) ==
  /\ Len(pts) = Len(vals) /\ \A j \in 1..Len(pts) : pts[j] \in 0..(K.n - 1)
  /\ Distinct(pts)
  /\ Sub(c, Mul(K.g, Claim(K, pts, vals), K.p), K.p) = Mul(w, Van(K, pts), K.p)
VerifyUpk(K, i, a, u) == LET p == K.p  d == Sub(K.tau, W(K, i), p) IN
  /\ Mul(a, d, p) = Mul(K.g, ATau(K), p)
  /\ Mul(u, d, p) = Sub(Mul(a, Frac(W(K, i), K.n % p, p), p), K.g, p)
GoodKey(K) == /\ Pow(K.om, K.n, K.p) = 1 /\ (K.n > 1 => Pow(K.om, K.n \div 2, K.p) # 1)
              /\ ATau(K) # 0 /\ K.g # 0 /\ K.h # 0
==============================================================================
