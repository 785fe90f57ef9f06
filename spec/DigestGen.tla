------------------------------ MODULE DigestGen ------------------------------
(* Families of neighbours: a random constraint system or layered circuit and   *)
(* everything one edit away from it.                                           *)
EXTENDS Digest, TLC, Json, IOUtils, SequencesExt
KIND == IOEnv.KIND
VARIABLES x, todo, stage
vars == <<x, todo, stage>>

(* ---- constraint systems ---- *)
VarsOf(c) == {<<0, i>> : i \in 0..c.ni} \cup {<<1, i>> : i \in 0..(c.na - 1)}
RandLc(c, n) == [j \in 1..n |-> LET v == RandomElement(VarsOf(c)) IN <<v[1], v[2], RandomElement({1, 1, 2, 3, -1})>>]
RandRow(c, i) == [a |-> RandLc(c, RandomElement(0..(2 + 0 * i))), b |-> RandLc(c, RandomElement(0..(2 + 0 * i))), c |-> RandLc(c, RandomElement(0..(2 + 0 * i)))]
Mats == {"a", "b", "c"}
Cut(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
R1(c) == DOMAIN c.cons
EditsR1CS(c) ==
  UNION {UNION {
     {[c EXCEPT !.cons[j][m][k] = <<v[1], v[2], @[3]>>] : v \in VarsOf(c)} \cup
     {[c EXCEPT !.cons[j][m][k][3] = @ + 1], [c EXCEPT !.cons[j][m] = Cut(@, k)]} \cup
     {[c EXCEPT !.cons[j][o] = Append(@, c.cons[j][m][k]), !.cons[j][m] = Cut(@, k)] : o \in Mats \ {m}}
     : k \in 1..Len(c.cons[j][m])} : j \in R1(c), m \in Mats}
  \cup {[c EXCEPT !.cons[j][m] = Cut(@, Len(@)), !.cons[j + 1][m] = <<c.cons[j][m][Len(c.cons[j][m])]>> \o @]
        : <<j, m>> \in {y \in (1..(Len(c.cons) - 1)) \X Mats : c.cons[y[1]][y[2]] # <<>>}}
  \cup {[c EXCEPT !.cons[j + 1][m] = Cut(@, 1), !.cons[j][m] = Append(@, c.cons[j + 1][m][1])]
        : <<j, m>> \in {y \in (1..(Len(c.cons) - 1)) \X Mats : c.cons[y[1] + 1][y[2]] # <<>>}}
  \cup {[c EXCEPT !.cons[j] = c.cons[j + 1], !.cons[j + 1] = c.cons[j]] : j \in 1..(Len(c.cons) - 1)}
  \cup {[c EXCEPT !.cons[j] = [a |-> @.b, b |-> @.a, c |-> @.c]] : j \in R1(c)}
  \cup {[c EXCEPT !.cons[j] = [a |-> @.a, b |-> @.c, c |-> @.b]] : j \in R1(c)}
  \cup {[c EXCEPT !.ni = @ + 1], [c EXCEPT !.na = @ + 1], [c EXCEPT !.cons = Append(@, @[1])], [c EXCEPT !.cons = @ \o <<[a |-> <<>>, b |-> <<>>, c |-> <<>>]>>]}

(* ---- layered circuits ---- *)
Half(c) == Pow2Up(Max2(c.ni, c.na), 1)
Below(c, d) == IF d = 1 THEN 2 * Half(c) ELSE Len(c.layers[d - 1])
RandGate(w) == <<RandomElement(0..(1 + 0 * w)), RandomElement(0..(w - 1)), RandomElement(0..(w - 1))>>
Fits(c) == \A d \in DOMAIN c.layers : Len(c.layers[d]) > 0 /\ \A g \in DOMAIN c.layers[d] : c.layers[d][g][2] < Below(c, d) /\ c.layers[d][g][3] < Below(c, d)
EditsLayered(c) == {y \in
  UNION {
     {[c EXCEPT !.layers[d][g][1] = 1 - @]} \cup
     {[c EXCEPT !.layers[d][g][2] = v] : v \in 0..(Below(c, d) - 1)} \cup
     {[c EXCEPT !.layers[d][g][3] = v] : v \in 0..(Below(c, d) - 1)} \cup
     {[c EXCEPT !.layers[d] = Cut(@, g)]}
     : <<d, g>> \in {z \in (DOMAIN c.layers) \X (1..8) : z[2] <= Len(c.layers[z[1]])}}
  \cup {[c EXCEPT !.layers[d] = Append(@, @[Len(@)])] : d \in DOMAIN c.layers}
  \cup {[c EXCEPT !.layers[d] = Cut(@, Len(@)), !.layers[d + 1] = <<c.layers[d][Len(c.layers[d])]>> \o @] : d \in 1..(Len(c.layers) - 1)}
  \cup {[c EXCEPT !.layers[d] = Append(@, c.layers[d + 1][1]), !.layers[d + 1] = Cut(@, 1)] : d \in 1..(Len(c.layers) - 1)}
  \cup {[c EXCEPT !.layers = SubSeq(@, 1, d) \o <<SubSeq(c.layers[d + 1], 1, g), SubSeq(c.layers[d + 1], g + 1, Len(c.layers[d + 1]))>> \o SubSeq(@, d + 2, Len(@))]
        : <<d, g>> \in {z \in (0..(Len(c.layers) - 1)) \X (1..7) : z[2] < Len(c.layers[z[1] + 1])}}
  \cup {[c EXCEPT !.ni = 2 * Half(c)], [c EXCEPT !.na = 2 * Half(c)], [c EXCEPT !.ni = Max2(c.na, 1)], [c EXCEPT !.layers = Append(@, @[Len(@)])]}
  : Fits(y)}

Init == stage = "dims" /\ x = [ni |-> 0] /\ todo = 0
Dims ==
  /\ stage = "dims"
  /\ \E ni \in {RandomElement(0..2)}, na \in {RandomElement(1..3)}, n \in {RandomElement(1..4)} :
       /\ x' = IF KIND = "r1cs" THEN [ni |-> ni, na |-> na, cons |-> <<>>] ELSE [ni |-> ni, na |-> na, layers |-> <<>>]
       /\ todo' = n
  /\ stage' = "grow"
Grow ==
  /\ stage = "grow" /\ todo > 0
  /\ IF KIND = "r1cs"
     THEN \E r \in {TLCEval(RandRow(x, todo))} : x' = [x EXCEPT !.cons = Append(@, r)]
     ELSE \E k \in {RandomElement(1..4)} : \E l \in {TLCEval([g \in 1..k |-> RandGate(Below(x, Len(x.layers) + 1) + 0 * g)])} : x' = [x EXCEPT !.layers = Append(@, l)]
  /\ todo' = todo - 1 /\ UNCHANGED stage
Emit ==
  /\ stage = "grow" /\ todo = 0
  /\ PrintT("@INST@" \o ToJson([kind |-> KIND, members |-> <<x, x>> \o SetToSeq(IF KIND = "r1cs" THEN EditsR1CS(x) ELSE EditsLayered(x))]))
  /\ stage' = "end" /\ UNCHANGED <<x, todo>>
Next == Dims \/ Grow \/ Emit
Spec == Init /\ [][Next]_vars
TypeOK == KIND = "layered" /\ stage = "grow" => Fits(x)
==============================================================================
