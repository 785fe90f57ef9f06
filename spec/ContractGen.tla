----------------------------- MODULE ContractGen -----------------------------
(* Transactions for the real contracts: the well-typed ones (all of them when  *)
(* FULL), documents in the wrong place, damaged bytes.                         *)
EXTENDS Contract, TLC, Json, IOUtils
SCH == IOEnv.SCH
FULL == IOEnv.FULL = "1"
R(S) == RandomElement(S)
One(s) == s[R(1..Len(s))]
C(d, k, s, b) == [doc |-> d, k |-> k, s |-> s, bad |-> b, dmg |-> "none", at |-> 0]
Typed == {<<C("vk", a, 1, 0), C("proof", k, s, b), C("public", j, u, 0)>> : a \in Keys(SCH), k \in Keys(SCH), s \in 1..2, b \in 0..(IF SCH \in {"marlin", "plonk"} THEN 3 ELSE 1), j \in Keys(SCH), u \in 1..2}
\* at most one thing is wrong
Near == {t \in Typed : LET d == (IF t[1].k # t[2].k THEN 1 ELSE 0) + (IF t[2].bad # 0 THEN 1 ELSE 0) + (IF t[3].s # t[2].s THEN 1 ELSE 0)
                                + (IF Circuit(t[3].k) # Circuit(t[2].k) THEN 1 ELSE 0) IN d <= 1 /\ (t[3].k = t[2].k \/ t[3].k = t[1].k)}
\* good for this scheme
Good == {t \in Typed : Accepts(SCH, t)}
Swaps == <<<<1, 3, 2>>, <<2, 1, 3>>, <<3, 2, 1>>, <<2, 3, 1>>, <<3, 1, 2>>, <<1, 1, 1>>, <<2, 2, 2>>, <<3, 3, 3>>, <<1, 2, 2>>, <<1, 1, 3>>, <<2, 2, 3>>>>
Moved(n) == LET t == TLCEval(R(Good))  q == Swaps[n] IN <<t[q[1]], t[q[2]], t[q[3]]>>
Damages == <<"missing", "cut", "half", "empty", "trail", "flip", "flip">>
Damaged(n) == LET t == TLCEval(R(Good))  i == ((n - 1) % 3) + 1  d == Damages[(((n - 1) \div 3) % 7) + 1] IN
              [t EXCEPT ![i].dmg = d, ![i].at = R(1..9999)]
RECURSIVE Seq1(_)
Seq1(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN Append(Seq1(S \ {x}), x)
VARIABLES n, todo
Init == n = 0 /\ todo = (IF FULL THEN Typed ELSE Near)
NM == Len(Swaps)
ND == IF FULL THEN 210 ELSE 42
More(x) == PrintT("@INST@" \o ToJson([scheme |-> SCH, cells |-> x]))
Next == \/ todo # {} /\ \E x \in {CHOOSE x \in todo : TRUE} : todo' = todo \ {x} /\ UNCHANGED n /\ More(x)
        \/ todo = {} /\ n < NM + ND /\ n' = n + 1 /\ UNCHANGED todo
           /\ \E x \in {IF n' <= NM THEN TLCEval(Moved(n')) ELSE TLCEval(Damaged(n' - NM))} : More(x)
Spec == Init /\ [][Next]_<<n, todo>>
==============================================================================
