------------------------------ MODULE MarlinPC -------------------------------
(* Marlin's polynomial commitment (KZG10 with hiding, degree bounds and        *)
(* batched openings), in the exponents: a group element is its logarithm and a *)
(* pairing a product.  K is the key: prime p, trapdoor beta, logarithms g, gg  *)
(* (blinding base), h, and the supported degree sd.                            *)
(* A polynomial record: c coefficients, b degree bound or -1, r and s the      *)
(* blinding polynomials of the commitment and of the shifted commitment.       *)
(* A claim record: c commitment, s shifted commitment or -1, d bound or -1,    *)
(* v the value.  A proof: w, and rv (0 when the proof carries none).           *)
EXTENDS FpArith
Deg(c) == LET nz == {i \in 1..Len(c) : c[i] # 0} IN IF nz = {} THEN 0 ELSE (CHOOSE i \in nz : \A j \in nz : j <= i) - 1
At(c, i) == IF i <= Len(c) THEN c[i] ELSE 0
Longest(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
PAdd(a, b, p) == [i \in 1..Longest(a, b) |-> Add(At(a, i), At(b, i), p)]
PScale(a, k, p) == [i \in 1..Len(a) |-> Mul(a[i], k, p)]
PShift(a, s) == [i \in 1..(Len(a) + s) |-> IF i <= s THEN 0 ELSE a[i - s]]
\* quotient by (X - z): synthetic division from the top
RECURSIVE Synth(_, _, _, _)
Synth(a, i, z, p) == IF i > Len(a) THEN 0 ELSE Add(a[i], Mul(z, Synth(a, i + 1, z, p), p), p)
Quot(a, z, p) == [i \in 1..(IF a = <<>> THEN 0 ELSE Len(a) - 1) |-> Synth(a, i + 1, z, p)]
(* keys *)
PowersOf(K, base, n) == [i \in 1..n |-> Mul(base, Pow(K.beta, i - 1, K.p), K.p)]
(* commitments *)
CanCommit(K, f) == /\ Deg(f.c) <= K.sd
                   /\ f.h # 0 /\ f.h <= K.sd
                   /\ f.b <= K.sd /\ (f.b >= 0 => Deg(f.c) <= f.b)
Hide(K, r) == Mul(K.gg, EvalPoly(r, K.beta, K.p), K.p)
CommOf(K, f) == Add(Mul(K.g, EvalPoly(f.c, K.beta, K.p), K.p), Hide(K, f.r), K.p)
ShiftedOf(K, f) == IF f.b < 0 THEN 0 - 1
  ELSE Add(Mul(K.g, Mul(Pow(K.beta, K.sd - f.b, K.p), EvalPoly(f.c, K.beta, K.p), K.p), K.p), Hide(K, f.s), K.p)
(* openings: the combinations with powers of the challenge xi *)
Xi(xi, i, p) == Pow(Mul(xi, xi, p), i - 1, p)
RECURSIVE CombP(_, _, _, _), CombR(_, _, _, _)
CombP(K, fs, i, xi) == IF i > Len(fs) THEN <<>>
  ELSE LET p == K.p  f == fs[i]  x == Xi(xi, i, p) IN
       PAdd(PAdd(PScale(f.c, x, p), IF f.b < 0 THEN <<>> ELSE PShift(PScale(f.c, Mul(x, xi, p), p), K.sd - f.b), p), CombP(K, fs, i + 1, xi), p)
CombR(K, fs, i, xi) == IF i > Len(fs) THEN <<>>
  ELSE LET p == K.p  f == fs[i]  x == Xi(xi, i, p) IN
       PAdd(PAdd(PScale(f.r, x, p), IF f.b < 0 THEN <<>> ELSE PScale(f.s, Mul(x, xi, p), p), p), CombR(K, fs, i + 1, xi), p)
OpenOf(K, fs, z, xi) ==
  LET p == K.p  P == CombP(K, fs, 1, xi)  R == CombR(K, fs, 1, xi) IN
  [w |-> Add(Mul(K.g, EvalPoly(Quot(P, z, p), K.beta, p), p), Mul(K.gg, EvalPoly(Quot(R, z, p), K.beta, p), p), p),
   rv |-> EvalPoly(R, z, p)]
ValueOf(f, z, p) == EvalPoly(f.c, z, p)
(* the verifier *)
WellFormed(K, cl) == /\ (cl.d < 0) = (cl.s < 0) /\ cl.d <= K.sd
AccC(K, cls, xi) == Total([i \in 1..Len(cls) |-> Mul(Xi(xi, i, K.p), IF cls[i].d < 0 THEN cls[i].c ELSE Add(cls[i].c, Mul(xi, cls[i].s, K.p), K.p), K.p)], K.p)
AccV(K, cls, z, xi) == LET p == K.p IN
  Total([i \in 1..Len(cls) |-> Mul(Xi(xi, i, p), IF cls[i].d < 0 THEN cls[i].v ELSE Add(cls[i].v, Mul(Mul(xi, Pow(z, K.sd - cls[i].d, p), p), cls[i].v, p), p), p)], p)
Check(K, cls, z, pf, xi) == LET p == K.p IN
  /\ \A i \in 1..Len(cls) : WellFormed(K, cls[i])
  /\ Mul(Sub(Sub(AccC(K, cls, xi), Mul(K.g, AccV(K, cls, z, xi), p), p), Mul(K.gg, pf.rv, p), p), K.h, p)
       = Mul(pf.w, Mul(K.h, Sub(K.beta, z, p), p), p)
==============================================================================
