------------------------------ MODULE R1CSGen -------------------------------
(* Generator of R1CS statements: a circuit under construction together with   *)
(* its assignment.  Each action is one call of the circuit-building API       *)
(* (alloc_input / alloc / enforce); the invariant says that the construction  *)
(* is always satisfied.  A finished circuit is emitted as JSON with a set of  *)
(* altered assignments, each violating as few constraints as possible.        *)
EXTENDS R1CS, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

WIDE == "WIDE" \in DOMAIN IOEnv
(* circuits of several hundred constraints, inputs and witnesses: counts that need more than a byte *)
HUGE == "HUGE" \in DOMAIN IOEnv
MaxCons == IF WIDE THEN 40 ELSE 12
Bound == 20000

VARIABLES xs, ws, order, cons, goal, done
vars == <<xs, ws, order, cons, goal, done>>

Coefs == {-2, -1, 1, 1, 1, 2, 3}
Vals == {-3, -1, 0, 1, 2, 3, 5, 7}

(* the i-th variable: the constant, the inputs, the witnesses *)
VarId(i) == IF i <= Len(xs) THEN <<0, i>> ELSE <<1, i - Len(xs) - 1>>
RandLC(n) ==
  LET pick == [i \in 1..n |-> RandomElement(0..(Len(xs) + Len(ws)))]
      p == TLCEval(pick)
      q == TLCEval([i \in 1..n |-> <<VarId(p[i])[1], VarId(p[i])[2], RandomElement(Coefs)>>])
  IN q

Small(v) == v < Bound /\ v > -Bound
(* within what the 32-bit integers of TLC can multiply *)
Fits(v) == v < 2 * Bound /\ v > -2 * Bound
Product(a, b) == IF Fits(a) /\ Fits(b) THEN a * b ELSE 100 * Bound

Init ==
  /\ xs = <<>> /\ ws = <<>> /\ order = <<>> /\ cons = <<>> /\ done = FALSE
  /\ goal = [cons |-> 0, ni |-> 0, na |-> 0]

(* many variables at once, in three runs *)
ChooseHuge ==
  /\ HUGE /\ goal.cons = 0 /\ UNCHANGED <<cons, done>>
  /\ \E n \in {RandomElement(262..290)}, ni \in {RandomElement(200..220)}, na \in {RandomElement(150..170)}, k \in {RandomElement(0..100)} :
       /\ goal' = [cons |-> n, ni |-> ni, na |-> na]
       /\ xs' = [i \in 1..ni |-> RandomElement(Vals)]
       /\ ws' = [i \in 1..na |-> RandomElement(Vals)]
       /\ order' = [i \in 1..(ni + na) |-> IF i > k /\ i <= k + ni THEN 0 ELSE 1]

(* the size of the circuit to build *)
Choose ==
  /\ ~HUGE /\ goal.cons = 0 /\ UNCHANGED <<xs, ws, order, cons, done>>
  /\ \E n \in {RandomElement((IF WIDE THEN 13 ELSE 1)..MaxCons)}, ni \in {RandomElement(0..(IF WIDE THEN 9 ELSE 4))},
        na \in {RandomElement(0..(IF WIDE THEN 20 ELSE 4))} :
        goal' = [cons |-> n, ni |-> ni, na |-> na]

Building == Len(cons) < goal.cons /\ ~done

AllocInput ==
  /\ Building /\ Len(xs) < goal.ni
  /\ \E v \in {RandomElement(Vals)} : xs' = Append(xs, v)
  /\ order' = Append(order, 0) /\ UNCHANGED <<ws, cons, goal, done>>

AllocAux ==
  /\ Building /\ Len(ws) < goal.na
  /\ \E v \in {RandomElement(Vals)} : ws' = Append(ws, v)
  /\ order' = Append(order, 1) /\ UNCHANGED <<xs, cons, goal, done>>

(* a * b = fresh variable (public or private) *)
Gate(kind) ==
  /\ Building /\ (Len(xs) + Len(ws) > 0)
  /\ \E na \in {RandomElement({1, 1, 2, 3} \cup (IF WIDE THEN {7} ELSE {}))}, nb \in {RandomElement({1, 2})} :
     \E a \in {RandLC(na)}, b \in {RandLC(nb)} :
       LET v == Product(LCVal(a, xs, ws), LCVal(b, xs, ws)) IN
       IF Small(v)
       THEN IF kind = 0
            THEN /\ xs' = Append(xs, v) /\ order' = Append(order, 0) /\ UNCHANGED <<ws, goal, done>>
                 /\ cons' = Append(cons, [a |-> a, b |-> b, c |-> <<<<0, Len(xs) + 1, 1>>>>])
            ELSE /\ ws' = Append(ws, v) /\ order' = Append(order, 1) /\ UNCHANGED <<xs, goal, done>>
                 /\ cons' = Append(cons, [a |-> a, b |-> b, c |-> <<<<1, Len(ws), 1>>>>])
       ELSE UNCHANGED vars

(* a * b = linear combination, balanced with a constant *)
Check ==
  /\ Building
  /\ \E na \in {RandomElement({0, 1, 2})}, nb \in {RandomElement({0, 1, 1, 2})}, nc \in {RandomElement({0, 1, 2})} :
     \E a \in {RandLC(na)}, b \in {RandLC(nb)}, c \in {RandLC(nc)} :
       LET d == Product(LCVal(a, xs, ws), LCVal(b, xs, ws)) - LCVal(c, xs, ws) IN
       IF Small(d)
       THEN /\ cons' = Append(cons, [a |-> a, b |-> b, c |-> IF d = 0 THEN c ELSE Append(c, <<0, 0, d>>)])
            /\ UNCHANGED <<xs, ws, order, goal, done>>
       ELSE UNCHANGED vars

(* linear constraint: a * ONE = c *)
Linear ==
  /\ Building /\ (Len(xs) + Len(ws) > 0)
  /\ \E na \in {RandomElement({1, 2, 3})} : \E a \in {RandLC(na)} :
       LET v == LCVal(a, xs, ws) IN
       IF Small(v)
       THEN /\ cons' = Append(cons, [a |-> a, b |-> <<<<0, 0, 1>>>>, c |-> IF v = 0 THEN <<>> ELSE <<<<0, 0, v>>>>])
            /\ UNCHANGED <<xs, ws, order, goal, done>>
       ELSE UNCHANGED vars

Deltas == {-1, 1, 2}
(* single-variable alterations of the current assignment *)
Alts ==
  {[x |-> [xs EXCEPT ![i] = @ + d], w |-> ws] : i \in 1..Len(xs), d \in Deltas}
  \cup {[x |-> xs, w |-> [ws EXCEPT ![i] = @ + d]] : i \in 1..Len(ws), d \in Deltas}

(* of a huge circuit: a few variables, the first and the last ones among them *)
Few(s) == LET n == Len(s) IN {1, n, RandomElement(1..n)} \cap (1..n)
FewAlts ==
  {[x |-> [xs EXCEPT ![i] = @ + 1], w |-> ws] : i \in TLCEval(Few(xs))}
  \cup {[x |-> xs, w |-> [ws EXCEPT ![i] = @ + 1]] : i \in TLCEval(Few(ws))}

WithViol == {[x |-> a.x, w |-> a.w, viol |-> Violated(cons, a.x, a.w)] : a \in IF HUGE THEN FewAlts ELSE Alts}
Bad == {a \in WithViol : a.viol # {}}
(* for every constraint an alteration that violates it and as little else as possible *)
Chosen ==
  {CHOOSE a \in {b \in Bad : i \in b.viol} :
      \A b \in {b \in Bad : i \in b.viol} : Cardinality(a.viol) <= Cardinality(b.viol)
   : i \in {j \in 1..Len(cons) : \E b \in Bad : j \in b.viol}}

AltGood == {a \in WithViol : a.viol = {}}

Finish ==
  /\ ~done /\ goal.cons > 0 /\ Len(cons) = goal.cons /\ done' = TRUE
  /\ UNCHANGED <<xs, ws, order, cons, goal>>
  /\ TLCSet(7, RandomElement(1..Len(cons)))
  /\ PrintT("@INST@" \o ToJson(
       [ni |-> Len(xs), na |-> Len(ws), order |-> order, cons |-> cons, x |-> xs, w |-> ws,
        cons2 |-> [j \in 1..Len(cons) |-> IF j = TLCGet(7) THEN [cons[j] EXCEPT !.c = Append(@, <<0, 0, 1>>)] ELSE cons[j]],
        bad |-> SetToSeq({[x |-> a.x, w |-> a.w] : a \in IF HUGE THEN Bad ELSE Chosen}),
        good |-> SetToSeq({[x |-> a.x, w |-> a.w] : a \in AltGood})]))

Next == ChooseHuge \/ Choose \/ AllocInput \/ AllocAux \/ Gate(0) \/ Gate(1) \/ Gate(1) \/ Check \/ Linear \/ Finish
Spec == Init /\ [][Next]_vars

AlwaysSatisfied == Holds(cons, xs, ws)
Counts == Cardinality({i \in 1..Len(order) : order[i] = 0}) = Len(xs)
=============================================================================
