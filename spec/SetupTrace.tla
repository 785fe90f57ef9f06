------------------------------ MODULE SetupTrace -----------------------------
(* Parameters that the real setups made from many seeds, against Setup.        *)
EXTENDS Setup, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
P == 12289
VARIABLES l, bad, seen
vars == <<l, bad, seen>>
Init == l = 1 /\ bad = <<>> /\ seen = [keys |-> 0, rows |-> 0, columns |-> 0, free |-> 0]
Om(n) == Pow(11, (P - 1) \div n, P)
\* draws that the real fields exclude with overwhelming probability
G16Good(e, r) == LET n == Domain(e.circ) IN
  /\ Len(r.h) >= 2 /\ r.h[1] # 0 /\ r.h[2] # 0 /\ r.delta1 # 0 /\ r.delta2 # 0 /\ Pow(Frac(r.h[2], r.h[1], P), n, P) # 1
  /\ r.alpha # 0 /\ r.beta1 # 0 /\ r.gamma # 0 /\ \E j \in 1 .. Len(r.a) : r.a[j] # 0
G16(e) ==
  LET rows == SelectSeq(e.rows, LAMBDA r : G16Good(e, r))
      q == TLCEval([i \in 1 .. Len(rows) |-> Qap(e.circ, rows[i], Om(Domain(e.circ)), P)])
      k == TLCEval([i \in 1 .. Len(rows) |-> Groth16Coins(rows[i], q[i], P)])
  IN IF Len(rows) < 45 THEN "few"
     ELSE IF \E i \in 1 .. Len(rows) : ~Groth16(e.circ, rows[i], q[i], k[i], P) THEN "form:groth16"
     ELSE IF ~Free([i \in 1 .. Len(rows) |-> <<k[i].t, k[i].g1, k[i].g2, k[i].alpha, k[i].beta, k[i].gamma, k[i].delta>>], P) THEN "coins:groth16" ELSE "ok"
KzgGood(r) == r.bh # 0 /\ r.h # 0
KZG(e) == LET rows == SelectSeq(e.rows, KzgGood) IN
  IF Len(rows) < 22 THEN "few"
  ELSE IF \E i \in 1 .. Len(rows) : ~Kzg(rows[i], e.size, P) THEN "form:" \o e.scheme
  ELSE IF ~Free([i \in 1 .. Len(rows) |-> KzgCoins(rows[i], P)], P) THEN "coins:" \o e.scheme ELSE "ok"
VecGood(r) == r.g[1] # 0 /\ r.h[1] # 0
VEC(e) == LET rows == SelectSeq(e.rows, VecGood) IN
  IF Len(rows) < 16 THEN "few"
  ELSE IF \E i \in 1 .. Len(rows) : ~Vector(rows[i], e.size, P) THEN "form:" \o e.scheme
  ELSE IF ~Free([i \in 1 .. Len(rows) |-> VectorCoins(rows[i], P)], P) THEN "coins:" \o e.scheme ELSE "ok"
Same(e) == \A i \in 1 .. Len(e.rows) : Len(e.rows[i]) = Len(e.rows[1])
Kind(e) ==
  CASE e.what = "key" -> IF ~Same(e) THEN "shape:" \o e.scheme \o "." \o e.name
                         ELSE IF Len(e.rows) < Len(e.rows[1]) + 4 THEN "few"
                         ELSE IF Independent(e.rows, P) THEN "ok" ELSE "relation:" \o e.scheme \o "." \o e.name
    [] e.scheme = "groth16" -> G16(e)
    [] e.scheme = "marlin" -> KZG(e)
    [] OTHER -> VEC(e)
Step == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN \E k \in {TLCEval(Kind(e))} :
           /\ l' = l + 1
           /\ bad' = IF k = "ok" THEN bad ELSE Append(bad, [line |-> l, kind |-> k])
           /\ seen' = [seen EXCEPT !.keys = @ + (IF e.what = "key" THEN 1 ELSE 0), !.free = @ + (IF e.what = "key" THEN 0 ELSE 1),
                                   !.rows = @ + Len(e.rows), !.columns = @ + (IF e.what = "key" THEN Len(e.rows[1]) ELSE 0)]
Spec == Init /\ [][Step]_vars
Report == (l = Len(Trace) + 1) => PrintT("@BAD@" \o ToJson([bad |-> bad, n |-> Len(Trace), seen |-> seen]))
==============================================================================
