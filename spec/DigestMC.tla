------------------------------ MODULE DigestMC -------------------------------
(* Matrices grow term by term and row by row; every pair of matrices with the  *)
(* same number of rows is compared.  Framed rows are told apart; rows that are *)
(* only concatenated are not (the collision is exhibited).                     *)
EXTENDS Digest, TLC
Syms == {7, 8}
VARIABLES m, n
vars == <<m, n>>
Init == m = <<<<>>>> /\ n = <<<<>>>>
Put(x) == {[x EXCEPT ![Len(x)] = Append(@, s)] : s \in Syms}
Row(x) == IF Len(x) < 3 THEN {Append(x, <<>>)} ELSE {}
Small(x) == \A i \in 1..Len(x) : Len(x[i]) <= 2
GrowM == \E x \in Put(m) \cup Row(m) : Small(x) /\ m' = x /\ UNCHANGED n
GrowN == \E x \in Put(n) \cup Row(n) : Small(x) /\ n' = x /\ UNCHANGED m
Next == GrowM \/ GrowN
Spec == Init /\ [][Next]_vars
FramedBinds == Len(m) = Len(n) /\ Framed(m) = Framed(n) => m = n
ASSUME \E x, y \in {<<<<7>>, <<>>>>, <<<<>>, <<7>>>>} : x # y /\ Flat(x) = Flat(y)
==============================================================================
