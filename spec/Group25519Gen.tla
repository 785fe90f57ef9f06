---------------------------- MODULE Group25519Gen ----------------------------
(* Histories of group and field operations. *)
EXTENDS Group25519, TLC, Json, IOUtils
LEN == 80
VARIABLES reg, hist
vars == <<reg, hist>>
Init == reg = Init0 /\ hist = <<>>
Ks == {0, 1, 1, 2, 3, 7, 8, 15, 16, 255, 256, -1, -1, -2, -3, -256, 9973}
Weighted == IF Len(hist) < 8 THEN {o \in Ops : o.n \in {"s_const", "p_gen", "p_other", "s_inv", "s_div", "p_mul"}} ELSE IF RandomElement(1..7) = 1 THEN Ops ELSE {o \in Ops : o.n \notin {"s_const", "p_gen", "p_other", "p_zero"}}
Step ==
  /\ Len(hist) < LEN
  /\ \E o \in {RandomElement(Weighted)} :
     \E d \in {RandomElement(RegsOf(o.d))}, a \in {IF o.a = "" THEN 0 ELSE RandomElement(RegsOf(o.a))},
        b \in {IF o.b = "" THEN 0 ELSE RandomElement(RegsOf(o.b))}, k \in {IF o.n = "s_pow" THEN RandomElement(0..3) ELSE RandomElement(Ks)},
        x \in {IF RandomElement(1..2) = 1 THEN 0 ELSE RandomElement(0..3)}, f \in {RandomElement(0..(o.f - 1))}, n \in {IF o.l THEN RandomElement(0..3) ELSE 0} :
     \E ls \in {TLCEval([i \in 1..n |-> [s |-> RandomElement(SR), p |-> RandomElement(PR)]])} :
       LET e == [op |-> o.n, d |-> d, a |-> a, b |-> b, k |-> k, e |-> x, f |-> f, ls |-> ls] IN
       /\ IF (Can(reg, e) = TRUE) THEN (Small(Result(reg, e)) = TRUE) ELSE FALSE
       /\ reg' = [reg EXCEPT ![d] = TLCEval(Result(reg, e))]
       /\ hist' = Append(hist, e)
(* a question, or nothing when the operation drawn cannot be applied *)
Ask ==
  /\ Len(hist) < LEN
  /\ \E q \in {IF RandomElement(1..12) > 1 THEN "" ELSE RandomElement({"q_sqrt", "q_leg", "q_scalar", "q_point", "q_alias", "q_sbits", "q_root"})} :
     IF q = "" THEN UNCHANGED hist
     ELSE \E a \in {IF q = "q_alias" THEN RandomElement(PR) ELSE RandomElement(SR)}, k \in {IF q = "q_alias" THEN RandomElement(1..4) ELSE IF q = "q_sbits" THEN RandomElement(1..5) ELSE IF q = "q_point" THEN RandomElement(1..Len(BadPoints)) ELSE IF q = "q_leg" THEN RandomElement(0..3) ELSE RandomElement({-3, -2, -1, 0, 1, 2, 5, 100})}, f \in {RandomElement(0..3)} :
          hist' = Append(hist, [op |-> q, d |-> 0, a |-> a, b |-> 0, k |-> k, e |-> 0, f |-> f, ls |-> <<>>])
  /\ UNCHANGED reg
Emit == Len(hist) = LEN /\ PrintT("@INST@" \o ToJson([ops |-> hist])) /\ hist' = Append(hist, hist[1]) /\ UNCHANGED reg
Next == Step \/ Ask \/ Emit
Spec == Init /\ [][Next]_vars
TypeOK == \A r \in SR \cup PR : Small(reg[r]) /\ reg[r].d >= 1
(* the values behave as a module over the field: distributivity and inverses *)
Laws ==
  /\ \A s \in {1}, u \in {2, 3} : LET a == reg[s] b == reg[u] IN
       /\ (Small(Comb(a, 1, b)) => Comb(Comb(a, 1, b), -1, b) = a)
       /\ (Invertible(a) => Times(a, InvS(a)) = Mono(1, 0))
       /\ (IsZero(Comb(a, -1, b)) <=> a = b)
       /\ \A q \in {5} : (Fits(a, reg[q]) /\ Fits(b, reg[q]) /\ Small(Comb(a, 1, b)) /\ Small(Times(a, reg[q])) /\ Small(Times(b, reg[q])))
            => Times(Comb(a, 1, b), reg[q]) = Comb(Times(a, reg[q]), 1, Times(b, reg[q]))
==============================================================================
