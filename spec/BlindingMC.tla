----------------------------- MODULE BlindingMC ------------------------------
(* All R x K matrices and differences over GF(P): the distributions of c and  *)
(* c + delta coincide exactly when Leaks is false, and they are then also     *)
(* undistinguishable by any combination of rows.                              *)
EXTENDS Blinding, IOUtils
CONSTANTS P, R, K
Prime == atoi(IOEnv.PRIME)
Height == atoi(IOEnv.HEIGHT)
Width == atoi(IOEnv.WIDTH)
F == 0 .. P - 1
Vec(n) == [1 .. n -> F]
VARIABLES J, D, done
vars == <<J, D, done>>
Init == J \in [1 .. R -> Vec(K)] /\ D \in Vec(R) /\ done = FALSE
Rows == [r \in 1 .. R |-> [j |-> J[r], d |-> <<D[r]>>]]
RECURSIVE Dot(_, _, _)
Dot(a, b, i) == IF i > Len(a) THEN 0 ELSE (a[i] * b[i] + Dot(a, b, i + 1)) % P
Out(c, d) == [r \in 1 .. R |-> (c[r] + Dot(J[r], d, 1)) % P]
Zeros == [r \in 1 .. R |-> 0]
Count(c, v) == Cardinality({d \in Vec(K) : Out(c, d) = v})
SameDistribution == \A v \in Vec(R) : Count(Zeros, v) = Count(D, v)
Kernel == {lam \in Vec(R) : \A k \in 1 .. K : Dot(lam, [r \in 1 .. R |-> J[r][k]], 1) = 0}
Step == ~done /\ done' = TRUE /\ UNCHANGED <<J, D>>
Spec == Init /\ [][Step]_vars
Criterion == done => (SameDistribution <=> ~Leaks(Rows, P))
Combinations == done => ((\A lam \in Kernel : Dot(lam, D, 1) = 0) <=> ~Leaks(Rows, P))
RankRight == done => Cardinality(Kernel) * P ^ Rank(Rows, P) = P ^ R
==============================================================================
