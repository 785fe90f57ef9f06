------------------------------- MODULE ASVCMC --------------------------------
(* All histories of updates over a vector of N values modulo P: commitment and *)
(* proofs carried along by the update algorithms equal freshly made ones, and  *)
(* aggregated proofs verify exactly for the current values.                    *)
EXTENDS ASVC, FiniteSets, TLC, IOUtils
CONSTANTS P, N, OM, TAUS, DELTAS
VARIABLES tau, vec, c, w
vars == <<tau, vec, c, w>>
K == [p |-> P, n |-> N, om |-> OM, tau |-> tau, g |-> 2, h |-> 3]
Pos == 0..(N - 1)
Zero == [i \in 1..N |-> 0]
Init == /\ tau \in TAUS /\ vec = Zero
        /\ c = CommitOf(K, vec) /\ w = [i \in 1..N |-> ProofOf(K, vec, <<i - 1>>)]
Update(j, d) == /\ vec' = [vec EXCEPT ![j + 1] = Add(@, d, P)]
                /\ c' = UpdCommit(K, c, j, d)
                /\ w' = [i \in 1..N |-> UpdProof(K, w[i], i - 1, j, d)]
                /\ UNCHANGED tau
Next == \E j \in Pos, d \in DELTAS : Update(j, d)
Spec == Init /\ [][Next]_vars
Good == GoodKey(K) /\ \A i \in Pos : VerifyUpk(K, i, UpdA(K, i), UpdU(K, i)) /\ ~VerifyUpk(K, i, Add(UpdA(K, i), 1, P), UpdU(K, i)) /\ ~VerifyUpk(K, i, UpdA(K, i), Add(UpdU(K, i), 1, P))
Fresh == c = CommitOf(K, vec) /\ \A i \in Pos : w[i + 1] = ProofOf(K, vec, <<i>>)
Sets == {s \in [1..2 -> Pos] : s[1] # s[2]} \cup {<<i>> : i \in Pos} \cup {<<0, 2, 1>>, <<0, 1, 2, 3>>}
Sound == \A s \in Sets :
  LET ws == [j \in 1..Len(s) |-> w[s[j] + 1]]  a == Aggregate(K, s, ws)  v == ValuesAt(vec, s) IN
  /\ a = ProofOf(K, vec, s)
  /\ Verify(K, c, s, v, a)
  /\ \A j \in 1..Len(s), d \in 1..(P - 1) : ~Verify(K, c, s, [v EXCEPT ![j] = Add(@, d, P)], a)
  /\ ~Verify(K, Add(c, 1, P), s, v, a)
  /\ ~Verify(K, c, s, v, Add(a, 1, P))
Bound == TLCGet("level") <= atoi(IOEnv.LEVEL)
==============================================================================
