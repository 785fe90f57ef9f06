-------------------------------- MODULE R1CS --------------------------------
(* Rank-1 constraint systems over the integers (all magnitudes are kept far   *)
(* below every modulus the implementation is run with, so that equality over  *)
(* the integers and equality in the field coincide).                          *)
(* A term is <<kind, index, coefficient>>: kind 0 = public input (index 0 is  *)
(* the constant ONE), kind 1 = witness (0-based).                             *)
EXTENDS Integers, Sequences, FiniteSets

TermVal(t, x, w) ==
  t[3] * (IF t[1] = 0 THEN (IF t[2] = 0 THEN 1 ELSE x[t[2]]) ELSE w[t[2] + 1])

RECURSIVE LCVal(_, _, _)
LCVal(lc, x, w) == IF lc = <<>> THEN 0 ELSE TermVal(Head(lc), x, w) + LCVal(Tail(lc), x, w)

ConHolds(c, x, w) == LCVal(c.a, x, w) * LCVal(c.b, x, w) = LCVal(c.c, x, w)

Holds(cons, x, w) == \A i \in 1..Len(cons) : ConHolds(cons[i], x, w)

Violated(cons, x, w) == {i \in 1..Len(cons) : ~ConHolds(cons[i], x, w)}
=============================================================================
