------------------------------ MODULE BigRank1 -------------------------------
(* Rank-1 systems whose coefficients are sums of signed powers of two far      *)
(* beyond TLC's integers, over wires that hold small integers: exact integer   *)
(* evaluation in limbs, and the elimination argument that shows that every     *)
(* wire is a function of the inputs, whatever they are.                        *)
(* A linear combination is <<small, big>>: small is a sequence of <<w, c>>,    *)
(* big of <<w, sign, k>> for sign * 2^k.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE SmallSum(_, _, _)
SmallSum(t, v, i) == IF i > Len(t) THEN 0 ELSE t[i][2] * v[t[i][1] + 1] + SmallSum(t, v, i + 1)
LIMBS == 24
RECURSIVE BigAcc(_, _, _, _, _)
BigAcc(t, v, f, acc, i) == IF i > Len(t) THEN acc ELSE
  LET j == (t[i][3] \div 12) + 1  x == f * t[i][2] * v[t[i][1] + 1] * 2 ^ (t[i][3] % 12)
  IN BigAcc(t, v, f, IF x = 0 THEN acc ELSE [acc EXCEPT ![j] = @ + x], i + 1)
RECURSIVE CarriesOut(_, _, _)
CarriesOut(a, j, c) == IF j > LIMBS THEN c = 0 ELSE LET s == a[j] + c IN s % 4096 = 0 /\ CarriesOut(a, j + 1, s \div 4096)
ZeroLimbs == [i \in 1..LIMBS |-> 0]
(* exact over the integers; operands stay far below the modulus *)
HoldsBig(c, v) ==
  IF c[1][2] = <<>> /\ c[2][2] = <<>> /\ c[3][2] = <<>>
  THEN SmallSum(c[1][1], v, 1) * SmallSum(c[2][1], v, 1) = SmallSum(c[3][1], v, 1)
  ELSE /\ c[2][2] = <<>> \/ c[1][2] = <<>>
       /\ LET sw == c[2][2] # <<>>
              x == IF sw THEN c[2] ELSE c[1]
              f == SmallSum((IF sw THEN c[1] ELSE c[2])[1], v, 1)
              a1 == BigAcc(x[2], v, f, ZeroLimbs, 1)
              a2 == BigAcc(c[3][2], v, -1, a1, 1)
              a3 == [a2 EXCEPT ![1] = @ + f * SmallSum(x[1], v, 1) - SmallSum(c[3][1], v, 1)]
          IN CarriesOut(a3, 1, 0)
(* ---------------------------- elimination --------------------------------- *)
TermsOf(lc) == [i \in 1..(Len(lc[1]) + Len(lc[2])) |-> IF i <= Len(lc[1]) THEN lc[1][i] ELSE lc[2][i - Len(lc[1])]]
In(lc, w) == (\E i \in 1..Len(lc[1]) : lc[1][i][1] = w) \/ (\E i \in 1..Len(lc[2]) : lc[2][i][1] = w)
AllTerms(lc, Q(_)) == (\A i \in 1..Len(lc[1]) : Q(lc[1][i][1])) /\ (\A i \in 1..Len(lc[2]) : Q(lc[2][i][1]))
LinOK(c, w, rank) ==
  /\ ~In(c[1], w) /\ ~In(c[2], w) /\ In(c[3], w)
  /\ \A j \in 1..3 : AllTerms(c[j], LAMBDA u : u = w \/ (rank[u + 1] >= 0 /\ rank[u + 1] < rank[w + 1]))
CoefS(lc, w) == LET J == {j \in 1..Len(lc[1]) : lc[1][j][1] = w} IN IF J = {} THEN 0 ELSE lc[1][CHOOSE j \in J : TRUE][2]
(* a constraint on w alone whose quadratic has the roots 0 and 1 *)
BoolOK(c, w) ==
  /\ \A j \in 1..3 : c[j][2] = <<>> /\ AllTerms(c[j], LAMBDA u : u \in {0, w})
  /\ CoefS(c[1], w) * CoefS(c[2], w) # 0
  /\ \A x \in {0, 1} : (CoefS(c[1], 0) + CoefS(c[1], w) * x) * (CoefS(c[2], 0) + CoefS(c[2], w) * x) = CoefS(c[3], 0) + CoefS(c[3], w) * x
(* w is a function of bits, computed by one constraint (with at most one auxiliary function h), and only takes the values 0 and 1 *)
SmallWires(c) == {c[1][1][i][1] : i \in 1..Len(c[1][1])} \cup {c[2][1][i][1] : i \in 1..Len(c[2][1])} \cup {c[3][1][i][1] : i \in 1..Len(c[3][1])}
RECURSIVE SumF(_, _, _, _)
SumF(t, f, x, i) == IF i > Len(t) THEN 0 ELSE (IF t[i][1] = x THEN 0 ELSE t[i][2] * f[t[i][1]]) + SumF(t, f, x, i + 1)
Solves(c, x) == /\ \A j \in 1..3 : c[j][2] = <<>>
                /\ CoefS(c[1], x) = 0 /\ CoefS(c[2], x) = 0 /\ CoefS(c[3], x) \in {1, -1}
AtF(c, x, f) == (SumF(c[1][1], f, x, 1) * SumF(c[2][1], f, x, 1) - SumF(c[3][1], f, x, 1)) * CoefS(c[3], x)
TableOK(sys, w, r, known(_)) ==
  LET c == sys[r[2]]
      h == IF Len(r) = 4 THEN r[4] ELSE 0
      U == SmallWires(c) \ {0, w, h}
  IN /\ Solves(c, w) /\ \A u \in U : known(u)
     /\ (h # 0) => /\ known(h) /\ h # w /\ Solves(sys[r[3]], h) /\ SmallWires(sys[r[3]]) \subseteq (U \cup {0, h})
     /\ \A f \in [U -> {0, 1}] :
          LET f0 == f @@ (0 :> 1)
              f1 == IF h = 0 THEN f0 ELSE f0 @@ (h :> AtF(sys[r[3]], h, f0))
          IN AtF(c, w, f1) \in {0, 1}
(* a plain sum of bits, below the modulus in both signs, solved from its least significant digit upwards: at each step the *)
(* next wire is the only unknown one in its lowest digit *)
PowTab == [i \in 0..14 |-> 2 ^ i]
V2(c) == CHOOSE i \in 0..14 : c % PowTab[i] = 0 /\ (c \div PowTab[i]) % 2 # 0
DigitsOf(lc) == [i \in 1..(Len(lc[1]) + Len(lc[2])) |-> IF i <= Len(lc[1]) THEN <<lc[1][i][1], V2(lc[1][i][2])>> ELSE <<lc[2][i - Len(lc[1])][1], lc[2][i - Len(lc[1])][3]>>]
RECURSIVE SignSmall(_, _, _)
SignSmall(t, f, i) == IF i > Len(t) THEN 0 ELSE (IF f * t[i][2] > 0 THEN f * t[i][2] ELSE 0) + SignSmall(t, f, i + 1)
RECURSIVE SignBig(_, _, _, _)
SignBig(t, f, acc, i) == IF i > Len(t) THEN acc ELSE
  SignBig(t, f, IF t[i][2] = f THEN [acc EXCEPT ![(t[i][3] \div 12) + 1] = @ + 2 ^ (t[i][3] % 12)] ELSE acc, i + 1)
RECURSIVE Below(_, _, _, _)
Below(a, j, c, lim) == IF j > LIMBS THEN c = 0 ELSE
  LET s == a[j] + c  d == s % 4096  lo == 12 * (j - 1)
  IN /\ (lo >= lim => d = 0) /\ ((lo < lim /\ lo + 12 > lim) => d < 2 ^ (lim - lo)) /\ Below(a, j + 1, s \div 4096, lim)
SideBelow(c, f, lim) ==
  LET a1 == SignBig(c[1][2], f, ZeroLimbs, 1)
      a2 == SignBig(c[3][2], -f, a1, 1)
      a3 == [a2 EXCEPT ![1] = @ + SignSmall(c[1][1], f, 1) + SignSmall(c[3][1], -f, 1)]
  IN Below(a3, 1, 0, lim)
RECURSIVE Firsts(_, _, _, _, _)
\* for each exponent the index in the solving order of the first wire whose lowest digit is not below it
Firsts(P, val, e, j, r) == IF e > 299 THEN r ELSE
  IF j <= Len(P) /\ val[P[j] + 1] < e THEN Firsts(P, val, e, j + 1, r) ELSE Firsts(P, val, e + 1, j, Append(r, j))
PackOK(c, P, e, limit) ==
  LET T == DigitsOf(c[1]) \o DigitsOf(c[3])
      W == {P[j] : j \in 2..Len(P)}
      first == Firsts(P, e.val, 0, 2, <<>>)
      Att == {i \in 1..Len(T) : T[i][1] \in W /\ T[i][2] = e.val[T[i][1] + 1]}
  IN /\ c[2][2] = <<>> /\ c[2][1] = <<<<0, 1>>>>
     /\ \A i \in 1..Len(T) : e.brule[T[i][1] + 1][1] # "none"
     /\ SideBelow(c, 1, limit) /\ SideBelow(c, -1, limit)
     /\ \A j \in 2..Len(P) : e.rule[P[j] + 1] = <<"dig", P[1]>>
     /\ \A j \in 2..(Len(P) - 1) : e.rank[P[j] + 1] < e.rank[P[j + 1] + 1] /\ e.val[P[j] + 1] < e.val[P[j + 1] + 1]
     /\ Cardinality(Att) = Len(P) - 1 /\ Cardinality({T[i][1] : i \in Att}) = Len(P) - 1
     /\ \A i \in 1..Len(T) :
          LET u == T[i][1]  k == T[i][2] IN
          IF u \in W THEN k >= e.val[u + 1]
          ELSE first[k + 1] <= Len(P) => (e.rank[u + 1] >= 0 /\ e.rank[u + 1] < e.rank[P[first[k + 1]] + 1])
==============================================================================
