----------------------------- MODULE LinCombGen ------------------------------
(* Generates operation histories; checks that forms and values commute.        *)
EXTENDS LinComb, TLC, Json, IOUtils
LEN == 80
VARIABLES reg, hist, x, wide
vars == <<reg, hist, x, wide>>
(* a wide history first grows four combinations to a dozen terms each           *)
Init == wide \in {0, 50} /\ reg = [r \in Regs |-> Zero] /\ hist = <<>> /\ x = [v \in V |-> (7 * v * v + 3 * v + 1) % P]
(* arithmetic on combinations is drawn more often than restarting them *)
Restart == {"lc_zero", "lc_var", "lc_cvar", "cv_zero", "cv_var", "cv_cvar", "lc_repl"}
Grown == {o \in Ops : o.s[3] # 0 /\ o.a # "" /\ o.b = ""}
Narrow(k) == IF k = "L" THEN {1, 2} ELSE {5, 6}
Drawn == IF Len(hist) < wide THEN Grown ELSE IF RandomElement(1..6) > 1 THEN {o \in Ops : o.n \notin Restart} ELSE Ops
Step ==
  /\ Len(hist) < LEN
  /\ \E o \in {RandomElement(Drawn)} :
     \E d \in {RandomElement(IF Len(hist) < wide THEN Narrow(o.d) ELSE RegsOf(o.d))} : \E a \in {IF Len(hist) < wide /\ o.a = o.d THEN d ELSE IF o.a \in {"L", "C"} THEN RandomElement(RegsOf(o.a)) ELSE 0},
        b \in {IF o.b # "" THEN RandomElement(RegsOf(o.b)) ELSE 0}, c \in {RandomElement({0, 1, 2, 3, 96, 50})}, v \in {RandomElement(V)}, f \in {RandomElement(0..(o.f - 1))} :
       LET e == [op |-> o.n, d |-> d, a |-> a, b |-> b, c |-> c, v |-> v, f |-> f] IN
       /\ reg' = Apply(reg, e)
       /\ hist' = Append(hist, e)
  /\ UNCHANGED <<x, wide>>
Emit == Len(hist) = LEN /\ PrintT("@INST@" \o ToJson([ops |-> hist])) /\ hist' = Append(hist, hist[1]) /\ UNCHANGED <<reg, x, wide>>
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars
(* evaluation is linear: the value of the result is the operation on the values *)
Homomorphic ==
  [][ Len(hist') > Len(hist) /\ Len(hist') <= LEN =>
      LET e == hist'[Len(hist')]  o == Op(e.op)
          va == IF o.a = "=" THEN Value(reg[e.d], x) ELSE IF o.a = "" THEN 0 ELSE Value(reg[e.a], x)
          vb == IF o.b = "" THEN 0 ELSE Value(reg[e.b], x) IN
      Value(reg'[e.d], x) = (Coef(o.s[1], e.c) * va + Coef(o.s[2], e.c) * vb + Coef(o.s[3], e.c) * x[e.v]) % P ]_vars
TypeOK == \A r \in Regs : \A v \in V : reg[r][v] \in 0..(P - 1)
==============================================================================
