------------------------------- MODULE Rank1 ---------------------------------
(* Rank-1 constraint systems over a small prime field as transition systems on *)
(* partial assignments: wires are numbered in allocation order, an assignment  *)
(* is extended wire by wire, and a constraint is decided as soon as its last   *)
(* wire has a value.  A constraint is <<last, A, B, C>>, a linear combination  *)
(* is a sequence of <<wire, coefficient>>; wire 0 is the constant one.         *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Sum_(_, _, _, _)
Sum_(lc, s, p, i) == IF i > Len(lc) THEN 0 ELSE (lc[i][2] * s[lc[i][1] + 1] + Sum_(lc, s, p, i + 1)) % p
Ev(lc, s, p) == Sum_(lc, s, p, 1)
Holds(c, s, p) == (Ev(c[2], s, p) * Ev(c[3], s, p)) % p = Ev(c[4], s, p)
AllHold(sys, s, p) == \A i \in 1..Len(sys) : Holds(sys[i], s, p)
(* constraints that become decided by wire k *)
Closing(sys, k) == {i \in 1..Len(sys) : sys[i][1] = k}
Coef(lc, k) == LET J == {j \in 1..Len(lc) : lc[j][1] = k} IN IF J = {} THEN 0 ELSE lc[CHOOSE j \in J : TRUE][2]
(* values of wire k that some closing constraint, linear in k, leaves open *)
Cands(sys, cl, s, k, p) ==
  LET L == {i \in cl : Coef(sys[i][2], k) = 0 /\ Coef(sys[i][3], k) = 0 /\ Coef(sys[i][4], k) \in {1, p - 1}} IN
  IF L = {} THEN 0..(p - 1)
  ELSE LET c == sys[CHOOSE i \in L : TRUE]
           z == Append(s, 0)
           d == (Ev(c[2], z, p) * Ev(c[3], z, p) - Ev(c[4], z, p)) % p
       IN {IF Coef(c[4], k) = 1 THEN d ELSE (p - d) % p}
Extend(sys, S, k, p, fixed) ==
  LET cl == Closing(sys, k) IN
  UNION {{Append(s, v) : v \in {w \in (IF k \in DOMAIN fixed THEN {fixed[k]} ELSE Cands(sys, cl, s, k, p)) :
             \A i \in cl : Holds(sys[i], Append(s, w), p)}} : s \in S}
RECURSIVE Sols_(_, _, _, _, _, _)
Sols_(sys, S, k, n, p, fixed) == IF k = n \/ S = {} THEN S ELSE Sols_(sys, Extend(sys, S, k, p, fixed), k + 1, n, p, fixed)
(* every satisfying assignment of n wires (wire 0 included) in which the wires of `fixed` have the given values *)
Sols(sys, n, p, fixed) == IF \E i \in Closing(sys, 0) : ~Holds(sys[i], <<1>>, p) THEN {} ELSE Sols_(sys, {<<1>>}, 1, n, p, fixed)
NoFix == [k \in {} |-> 0]
==============================================================================
