------------------------------- MODULE GKRGen --------------------------------
(* Generates layered circuits with inputs, witnesses, and single-gate changes. *)
EXTENDS GKR, TLC, Json, IOUtils
HYRAX == IOEnv.KIND \in {"hyrax", "hyrax-wide"}
WIDE == IOEnv.KIND \in {"libra-wide", "hyrax-wide"}
Dims == IF WIDE THEN {0, 1, 3, 5, 8, 9, 12, 16, 17} ELSE 0..4
Vals == -3..4
Copies == IF HYRAX THEN (IF WIDE THEN {2, 4, 8} ELSE {2, 4}) ELSE {1}
Sizes == IF HYRAX THEN (IF WIDE THEN {2, 4, 8, 16} ELSE {1, 2, 4}) ELSE IF WIDE THEN {2, 7, 9, 12, 16, 17, 20} ELSE 1..5
MaxDepth == IF WIDE THEN 6 ELSE 3

VARIABLES c, xs, ws, size, depth, cur, stage, alts
vars == <<c, xs, ws, size, depth, cur, stage, alts>>

Init ==
  /\ c = [ni |-> 0, na |-> 0, layers |-> <<>>]
  /\ xs = <<>> /\ ws = <<>> /\ size = 0 /\ depth = 0 /\ cur = <<>> /\ stage = "dims" /\ alts = <<>>

RandVec(n) == [i \in 1..n |-> RandomElement(Vals)]
(* shorter than the layer: the rest are zeros; each copy may have its own length *)
SHORT == "SHORT" \in DOMAIN IOEnv
MaybeShort(n, k) == RandVec(IF SHORT /\ k = 1 THEN RandomElement(0..n) ELSE n)
Dimensions ==
  /\ stage = "dims"
  /\ \E ni \in {RandomElement(Dims)}, na \in {RandomElement(Dims)}, n \in {RandomElement(Copies)}, d \in {RandomElement(1..MaxDepth)} :
       /\ c' = [ni |-> ni, na |-> na, layers |-> <<>>]
       /\ xs' = TLCEval([i \in 1..n |-> MaybeShort(ni, RandomElement(1..5))])
       /\ ws' = TLCEval([i \in 1..n |-> MaybeShort(na, RandomElement(1..3))])
       /\ depth' = d
  /\ stage' = "size"
  /\ UNCHANGED <<size, cur, alts>>
PickSize ==
  /\ stage = "size"
  /\ IF Len(c.layers) = depth
     THEN stage' = "alter" /\ UNCHANGED size
     ELSE /\ \E s \in {RandomElement(Sizes)} : size' = s
          /\ stage' = "gates"
  /\ cur' = <<>>
  /\ UNCHANGED <<c, xs, ws, depth, alts>>

Below(i) == Eval(c, xs[i], ws[i])[Len(c.layers) + 1]
Abs(v) == IF v < 0 THEN -v ELSE v
Small(l, r) == \A i \in 1..Len(xs) : Abs(Below(i)[l + 1]) <= 170 /\ Abs(Below(i)[r + 1]) <= 170
AddGate ==
  /\ stage = "gates"
  /\ IF Len(cur) = size
     THEN /\ c' = [c EXCEPT !.layers = Append(@, cur)]
          /\ cur' = <<>> /\ stage' = "size"
     ELSE LET m == Len(Below(1)) IN
          /\ \E l \in {RandomElement(0..(m - 1))}, r \in {RandomElement(0..(m - 1))}, op \in {RandomElement({0, 1})} :
               cur' = Append(cur, <<IF Small(l, r) THEN op ELSE 0, l, r>>)
          /\ UNCHANGED <<c, stage>>
  /\ UNCHANGED <<xs, ws, size, depth, alts>>

(* one gate of one layer changed: operation, left or right operand *)
Width(d) == IF d = 1 THEN 2 * Half(c) ELSE Len(c.layers[d - 1])
Alter ==
  /\ stage = "alter"
  /\ IF Len(alts) = 4
     THEN stage' = "done" /\ UNCHANGED alts
     ELSE /\ \E d \in {RandomElement(1..Len(c.layers))} : \E g \in {RandomElement(1..Len(c.layers[d]))} : \E what \in {RandomElement(1..3)}, k \in {RandomElement(0..(Width(d) - 1))} :
               alts' = Append(alts, [c EXCEPT !.layers[d][g][what] = IF what = 1 THEN 1 - @ ELSE k].layers)
          /\ UNCHANGED stage
  /\ UNCHANGED <<c, xs, ws, size, depth, cur>>
Emit ==
  /\ stage = "done"
  /\ NonZero(c, xs, ws) = TRUE
  /\ PrintT("@INST@" \o ToJson([ni |-> c.ni, na |-> c.na, layers |-> c.layers, xs |-> xs, ws |-> ws, alts |-> alts]))
  /\ stage' = "end" /\ UNCHANGED <<c, xs, ws, size, depth, cur, alts>>
Next == Dimensions \/ PickSize \/ AddGate \/ Alter \/ Emit
Spec == Init /\ [][Next]_vars

TypeOK == \A d \in 1..Len(c.layers) : \A g \in 1..Len(c.layers[d]) : c.layers[d][g][2] < Width(d) /\ c.layers[d][g][3] < Width(d)
(* the evaluation is layer by layer: the last layer of a prefix is the next layer's operands *)
Layered == stage = "size" /\ Len(c.layers) > 0 =>
  \A i \in 1..Len(xs) : LET e == Eval(c, xs[i], ws[i]) IN \A d \in 1..Len(c.layers) : e[d + 1] = EvalLayer(c.layers[d], e[d])
==============================================================================
