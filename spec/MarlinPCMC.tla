------------------------------ MODULE MarlinPCMC -----------------------------
(* Two committed polynomials over a small field, every point and challenge.    *)
EXTENDS MarlinPC, FiniteSets, TLC, IOUtils
CONSTANTS P, SD, COEF, BETAS, BLIND
VARIABLES f, z, xi, beta
vars == <<f, z, xi, beta>>
K == [p |-> P, beta |-> beta, g |-> 2, gg |-> 3, h |-> 2, sd |-> SD]
Small == atoi(IOEnv.LEVEL) = 0
Blinds == {<<>>, <<1, 2>>}
Fld == 0..(P - 1)
Polys == {<<a, b, c>> : a \in (IF Small THEN {0, 3} ELSE COEF), b \in COEF, c \in COEF}
Rec(c, b, r) == [c |-> c, b |-> b, h |-> IF r = <<>> THEN 0 - 1 ELSE 1, r |-> r, s |-> IF b < 0 \/ r = <<>> THEN <<>> ELSE <<r[2], r[1]>>]
Init == /\ beta \in BETAS /\ z \in Fld /\ xi \in 1..(IF Small THEN 1 ELSE atoi(IOEnv.LEVEL))
        /\ f = <<>>
Next == /\ Len(f) < 2 /\ UNCHANGED <<z, xi, beta>>
        /\ \E c \in (IF f = <<>> THEN Polys ELSE IF Small THEN {<<4, 1, 3>>, <<0, 3, 0>>} ELSE {<<1, 0, 1>>, <<0, 3, 0>>, <<4, 1, 3>>}), b \in {0 - 1} \cup (0..SD), r \in BLIND :
             CanCommit(K, Rec(c, b, r)) /\ f' = Append(f, Rec(c, b, r))
Spec == Init /\ [][Next]_vars
Cl == [i \in 1..Len(f) |-> [c |-> CommOf(K, f[i]), s |-> ShiftedOf(K, f[i]), d |-> f[i].b, v |-> ValueOf(f[i], z, P)]]
Pf == OpenOf(K, f, z, xi)
Honest == f # <<>> => Check(K, Cl, z, Pf, xi)
\* a changed value passes exactly when its weight in the combination vanishes
Weight(i) == IF f[i].b < 0 THEN 1 ELSE Add(1, Mul(xi, Pow(z, SD - f[i].b, P), P), P)
Sound == f # <<>> =>
  /\ \A i \in 1..Len(f), d \in 1..(P - 1) :
       /\ Check(K, [Cl EXCEPT ![i].v = Add(@, d, P)], z, Pf, xi) = (Weight(i) = 0)
       /\ ~Check(K, [Cl EXCEPT ![i].c = Add(@, d, P)], z, Pf, xi)
       /\ f[i].b >= 0 => ~Check(K, [Cl EXCEPT ![i].s = Add(@, d, P)], z, Pf, xi)
       /\ ~Check(K, Cl, z, [Pf EXCEPT !.rv = Add(@, d, P)], xi)
       /\ Check(K, Cl, z, [Pf EXCEPT !.w = Add(@, d, P)], xi) = (z = beta)
  /\ \A i \in 1..Len(f) : f[i].b >= 0 => ~Check(K, [Cl EXCEPT ![i].d = 0 - 1], z, Pf, xi) /\ ~Check(K, [Cl EXCEPT ![i].s = 0 - 1], z, Pf, xi)
\* an algebraic prover: if for two different challenges the accumulated claims
\* divide by X - z, value and shift are right at z (checked on formal polynomials)
Divides(a) == EvalPoly(a, z, P) = 0
DegreeBound == Len(f) = 1 /\ xi = 1 =>
  \A b \in 0..SD, v \in Fld : \A sh \in {PShift(f[1].c, SD - b), <<1, 2, 3>>, f[1].c, <<0, 0, 1>>} :
    (Cardinality({x \in 1..(P - 1) : EvalPoly(PAdd(f[1].c, PScale(sh, x, P), P), z, P) = Add(v, Mul(x, Mul(Pow(z, SD - b, P), v, P), P), P)}) > 1)
      => (v = ValueOf(f[1], z, P) /\ EvalPoly(sh, z, P) = Mul(Pow(z, SD - b, P), v, P))
==============================================================================
