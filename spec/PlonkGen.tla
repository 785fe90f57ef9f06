------------------------------- MODULE PlonkGen ------------------------------
(* Generator of PLONK circuits: each action is one call of the Composer API;   *)
(* the invariant says that the construction is satisfied.                      *)
EXTENDS PlonkCS, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt
Bound == 20000
WIDE == "WIDE" \in DOMAIN IOEnv
MaxGates == IF WIDE THEN 70 ELSE 18

VARIABLES vals, calls, goal, done
vars == <<vals, calls, goal, done>>
Coefs == {-2, -1, 0, 1, 1, 1, 2, 3}
Vals == {-3, -1, 0, 1, 2, 3, 5}
V(i) == vals[i + 1]
AnyVar == RandomElement(1..(Len(vals) - 1))  \* the API never hands out the null variable
Small(v) == v < Bound /\ v > -Bound
Base == [k |-> "add", l |-> 0, ql |-> 0, r |-> 0, qr |-> 0, o |-> 0, a |-> -1, qa |-> 0, qm |-> 0, qc |-> 0, pi |-> 0]

Init == vals = <<0>> /\ calls = <<>> /\ goal = 0 /\ done = FALSE
Choose == goal = 0 /\ (\E n \in {RandomElement((IF WIDE THEN 19 ELSE 1)..MaxGates)} : goal' = n) /\ UNCHANGED <<vals, calls, done>>
Room == goal > 0 /\ Len(calls) < goal /\ ~done
Building == Room /\ Len(vals) > 1

Alloc == Room /\ Len(vals) < 8 /\ (\E v \in {RandomElement(Vals)} : vals' = Append(vals, v)) /\ UNCHANGED <<calls, goal, done>>

(* output: a fresh variable, or an existing one with the public input closing the gap *)
Gate(kind, fresh) ==
  /\ Building
  /\ \E l \in {AnyVar}, r \in {AnyVar}, a \in {RandomElement({-1, -1} \cup 1..(Len(vals) - 1))}, o \in {AnyVar},
        ql \in {RandomElement(Coefs)}, qr \in {RandomElement(Coefs)}, qa \in {RandomElement(Coefs)}, qm \in {RandomElement(Coefs)},
        qc \in {RandomElement({0, 0, 1, -4})}, p \in {RandomElement({0, 0, 2, -1})} :
     LET lin == (IF kind = "add" THEN ql * V(l) + qr * V(r) ELSE qm * V(l) * V(r)) + (IF a < 0 THEN 0 ELSE qa * V(a)) + qc
         out == IF fresh THEN lin + p ELSE V(o)
         pi == IF fresh THEN p ELSE V(o) - lin
         c == [Base EXCEPT !.k = kind, !.l = l, !.r = r, !.a = a, !.qa = IF a < 0 THEN 0 ELSE qa, !.o = IF fresh THEN Len(vals) ELSE o,
                  !.ql = IF kind = "add" THEN ql ELSE 0, !.qr = IF kind = "add" THEN qr ELSE 0, !.qm = IF kind = "mul" THEN qm ELSE 0,
                  !.qc = qc, !.pi = pi]
     IN IF Small(out) /\ Small(pi)
        THEN /\ calls' = Append(calls, c) /\ vals' = IF fresh THEN Append(vals, out) ELSE vals
             /\ UNCHANGED <<goal, done>>
        ELSE UNCHANGED vars

Const ==
  /\ Building
  /\ \E l \in {AnyVar}, p \in {RandomElement({0, 0, 1, 3})} :
       calls' = Append(calls, [Base EXCEPT !.k = "const", !.l = l, !.qc = V(l) - p, !.pi = p])
  /\ UNCHANGED <<vals, goal, done>>

Equal ==
  /\ Building
  /\ \E l \in {AnyVar} :
       LET same == {j \in 1..(Len(vals) - 1) : V(j) = V(l) /\ j # l} IN
       IF same # {} /\ RandomElement({0, 1}) = 0
       THEN (\E r \in {RandomElement(same)} : calls' = Append(calls, [Base EXCEPT !.k = "eq", !.l = l, !.r = r])) /\ UNCHANGED vals
       ELSE /\ vals' = Append(vals, V(l))
            /\ calls' = Append(calls, [Base EXCEPT !.k = "eq", !.l = l, !.r = Len(vals)])
  /\ UNCHANGED <<goal, done>>

(* altered assignments *)
Viol(w) == {i \in 1..Len(calls) : GateVal(Row(calls[i]), w[i], Row(calls[i]).pi) # 0}
Alts == {[vals |-> [vals EXCEPT ![i] = @ + d], ov |-> <<>>] : i \in 2..Len(vals), d \in {1, -1}}
WithViol == {[a |-> a, viol |-> Viol(Wires(calls, a.vals, a.ov))] : a \in Alts}
PerGate == {CHOOSE b \in {x \in WithViol : g \in x.viol} : \A x \in {y \in WithViol : g \in y.viol} : Cardinality(b.viol) <= Cardinality(x.viol)
            : g \in {h \in 1..Len(calls) : \E x \in WithViol : h \in x.viol}}
Slots(c) == CASE c.k = "const" -> {1} [] c.k = "eq" -> {1, 2} [] OTHER -> {1, 2, 3} \cup (IF c.a < 0 THEN {} ELSE {0})
OneOv == {<<g, s>> : g \in 1..Len(calls), s \in 0..3} \cap UNION {{<<g, s>> : s \in Slots(calls[g])} : g \in 1..Len(calls)}
Ovs == {[vals |-> vals, ov |-> <<<<p[1], p[2], Wires(calls, vals, <<>>)[p[1]][p[2] + 1] + 1>>>>] : p \in OneOv}
(* pairs of overrides that keep the gate and break only copies (or nothing) *)
Compens ==
  UNION {LET w == Wires(calls, vals, <<>>)[g] c == calls[g] IN
         IF c.k = "add" /\ c.l # c.o
         THEN {[vals |-> vals, ov |-> <<<<g, 1, w[2] + 1>>, <<g, 3, w[4] + c.ql>>>>]}
         ELSE {} : g \in 1..Len(calls)}
Pick(S, n) == LET q == SetToSeq(S) IN IF Len(q) <= n THEN q ELSE [i \in 1..n |-> q[((i * 7919 + Len(q) \div 2) % Len(q)) + 1]]

Finish ==
  /\ ~done /\ goal > 0 /\ Len(calls) = goal /\ done' = TRUE /\ UNCHANGED <<vals, calls, goal>>
  /\ TLCSet(7, RandomElement(1..Len(calls)))
  /\ PrintT("@INST@" \o ToJson(
       [vals |-> vals, calls |-> calls,
        calls2 |-> [j \in 1..Len(calls) |-> IF j = TLCGet(7) THEN (IF calls[j].k = "eq" THEN [calls[j] EXCEPT !.k = "const", !.qc = V(calls[j].l) + 1, !.pi = 0] ELSE [calls[j] EXCEPT !.qc = @ + 1]) ELSE calls[j]],
        bad |-> Pick({b.a : b \in PerGate}, 6), ovs |-> Pick(Ovs, 8), comp |-> Pick(Compens, 4)]))

Next == Choose \/ Alloc \/ Gate("add", TRUE) \/ Gate("mul", TRUE) \/ Gate("add", FALSE) \/ Gate("mul", FALSE) \/ Const \/ Equal \/ Finish
Spec == Init /\ [][Next]_vars
AlwaysSatisfied == Satisfies(calls, Wires(calls, vals, <<>>), Pis(calls))
=============================================================================
