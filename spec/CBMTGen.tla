------------------------------- MODULE CBMTGen -------------------------------
(* For every leaf count up to N and some larger ones: the tree, and for every  *)
(* position the genuine proof and its alterations in each single element.      *)
EXTENDS CBMT, Json, IOUtils
N == atoi(IOEnv.N)
Big == {31, 32, 33, 64}
Name(i) == "L" \o ToString(i)
Pat(n, c) == CASE c = 1 -> [i \in 1..n |-> Name(i)]
               [] c = 2 -> [i \in 1..n |-> Name(i % 2)]
               [] c = 3 -> [i \in 1..n |-> IF i % 3 = 0 THEN "" ELSE Name(i)]
               [] OTHER -> [i \in 1..n |-> IF i % 4 = 0 THEN Merge(Name(1), Name(2)) ELSE Name((i * i) % 5)]
VARIABLES q, st
Check(k, lm, rt, lf) == [index |-> k, lemmas |-> lm, root |-> rt, leaf |-> lf]
Alters(ls, k) ==
  LET lm == PathOf(ls, k)  rt == RootOf(ls)  lf == Node(ls, k)  n == Len(ls) IN
  <<Check(k, lm, rt, lf), Check(k, lm, "x", lf), Check(k, lm, lf, lf), Check(k, lm, "", lf), Check(k, lm, rt, "x"), Check(k, lm, rt, rt),
    Check(k, lm, rt, Node(ls, Sibling(k))), Check(k, lm, rt, Node(ls, Parent(k)))>>
  \o [j \in 1..Len(lm) |-> Check(k, [lm EXCEPT ![j] = "x"], rt, lf)]
  \o [j \in 1..Len(lm) |-> Check(k, [lm EXCEPT ![j] = Node(ls, Ancestry(k)[j])], rt, lf)]
  \o [j \in 1..Len(lm) |-> Check(k, [lm EXCEPT ![j] = ""], rt, lf)]
  \o [j \in 1..Len(lm) |-> Check(k, [i \in 1..(Len(lm) - 1) |-> lm[IF i < j THEN i ELSE i + 1]], rt, lf)]
  \o (IF Len(lm) > 1 THEN <<Check(k, [j \in 1..Len(lm) |-> lm[Len(lm) + 1 - j]], rt, lf)>> ELSE <<>>)
  \o (IF k = 0 THEN <<>> ELSE
      \* the same path claimed for another position of the same depth
      [j \in 1..3 |-> LET m == IF j = 1 THEN Sibling(k) ELSE IF j = 2 THEN (IF k + 2 <= 2 * n - 2 THEN k + 2 ELSE n - 1) ELSE 2 * n - 2 IN
         Check(IF Depth(m) = Depth(k) THEN m ELSE k, lm, rt, lf)])
(* genuine paths claimed for every other position of the tree and one row below *)
(* it, so with too few or too many lemmas, and inner nodes passed off as leaves *)
RECURSIVE Up(_, _)
Up(k, j) == IF j = 0 THEN k ELSE Up(Parent(k), j - 1)
Misplaced(ls, k) ==
  LET lm == PathOf(ls, k)  rt == RootOf(ls)  lf == Node(ls, k)  n == Len(ls) IN
  [m \in 1..(4 * n) |-> Check(m - 1, lm, rt, lf)]
  \o [j \in 1..Len(lm) |-> Check(k, SubSeq(lm, j + 1, Len(lm)), rt, Node(ls, Up(k, j)))]
  \o [j \in 1..Len(lm) |-> Check(k, SubSeq(lm, 1, Len(lm) - j), Node(ls, Up(k, Len(lm) - j)), lf)]
  \o <<Check(k, lm \o <<"x">>, Merge("x", rt), lf), Check(k, lm \o <<"x">>, Merge(rt, "x"), lf), Check(k, lm \o <<rt>>, rt, lf), Check(k, lm \o <<"x">>, rt, lf),
       Check(0, <<>>, rt, lf), Check(0, <<>>, lf, lf), Check(0, <<>>, rt, rt), Check(0, <<lf>>, rt, lf), Check(0, <<"x">>, Merge("x", lf), lf), Check(0, <<"x">>, Merge(lf, "x"), lf), Check(0, <<"x">>, lf, lf)>>
Init == \/ st = "check" /\ \E n \in 1..N, c \in {1, 4} : \E k \in (n - 1)..(2 * n - 2) : q = [ev |-> "check", cs |-> Misplaced(Pat(n, c), k)]
        \/ st = "check" /\ \E k \in {31, 33, 47, 61, 62} : q = [ev |-> "check", cs |-> Misplaced(Pat(32, 1), k)]
        \/ st = "tree" /\ \E n \in 0..N, c \in 1..4 : q = [ev |-> "tree", leaves |-> Pat(n, c)]
        \/ st = "tree" /\ \E n \in Big : q = [ev |-> "tree", leaves |-> Pat(n, 1)]
        \/ st = "check" /\ \E n \in 1..N, c \in 1..4 : \E k \in (n - 1)..(2 * n - 2) : q = [ev |-> "check", cs |-> Alters(Pat(n, c), k)]
        \/ st = "check" /\ \E n \in Big : \E k \in {n - 1, n, n + 7, 2 * n - 3, 2 * n - 2} : q = [ev |-> "check", cs |-> Alters(Pat(n, 1), k)]
        \/ st = "index" /\ q = [ev |-> "index", xs |-> [i \in 1..130 |-> i - 1] \o [i \in 1..90 |-> LET e == 2 ^ (i % 30) IN IF i < 31 THEN e ELSE IF i < 61 THEN e + 1 ELSE IF e = 1 THEN 1 ELSE e - 1]]
Next == UNCHANGED <<q, st>>
Spec == Init /\ [][Next]_<<q, st>>
Emit == PrintT("@INST@" \o ToJson(q))
==============================================================================
