---------------------------- MODULE BlindingTrace ----------------------------
(* Groups of published words of the real provers, with their derivative by    *)
(* every word of randomness and their change with every part of the witness   *)
(* (the verifier's coins held fixed).  One row is eliminated per step; a      *)
(* combination of words that only the witness moves is a leak.                *)
EXTENDS Blinding, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, rows, rank, at, bad, ranks
vars == <<l, rows, rank, at, bad, ranks>>
Init == l = 1 /\ rows = <<>> /\ rank = 0 /\ at = FALSE /\ bad = <<>> /\ ranks = 0
E == Trace[l]
Load == /\ l <= Len(Trace) /\ ~at
        /\ IF E.ev = "group"
           THEN /\ rows' = [n \in 1 .. Len(E.J) |-> [j |-> E.J[n], d |-> E.D[n]]]
                /\ at' = TRUE /\ rank' = 0 /\ UNCHANGED <<l, bad, ranks>>
           ELSE l' = l + 1 /\ UNCHANGED <<rows, rank, at, bad, ranks>>
Eliminate == /\ at /\ rows # <<>> /\ ~LeaksHere(rows)
             /\ rows' = Next(rows, E.p)
             /\ rank' = rank + (IF Bare(rows) THEN 0 ELSE 1)
             /\ UNCHANGED <<l, at, bad, ranks>>
Leak == /\ at /\ rows # <<>> /\ LeaksHere(rows)
        /\ bad' = Append(bad, [line |-> l, rank |-> rank, left |-> Len(rows)])
        /\ rows' = <<>> /\ at' = FALSE /\ l' = l + 1 /\ rank' = 0 /\ UNCHANGED ranks
Done == /\ at /\ rows = <<>>
        /\ at' = FALSE /\ l' = l + 1 /\ rank' = 0 /\ ranks' = ranks + rank /\ UNCHANGED <<rows, bad>>
Step == Load \/ Eliminate \/ Leak \/ Done
Spec == Init /\ [][Step]_vars
Report == l <= Len(Trace) \/ PrintT("@BAD@" \o ToJson([bad |-> bad, n |-> l - 1, ranks |-> ranks]))
TypeOK == l \in 1 .. Len(Trace) + 1
==============================================================================
