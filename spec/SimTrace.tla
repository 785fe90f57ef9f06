------------------------------ MODULE SimTrace -------------------------------
(* Verdicts of a real verifier on transcripts built by one of the simulation  *)
(* specifications: accepted exactly when no verification equation is broken.  *)
EXTENDS Integers, Sequences, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Init == l = 1 /\ bad = <<>>
E == Trace[l]
Right == (E.res = "accept") = (E.hit = <<>>)
Step == l <= Len(Trace) /\ l' = l + 1 /\ bad' = IF Right THEN bad ELSE Append(bad, l)
Spec == Init /\ [][Step]_<<l, bad>>
Report == l <= Len(Trace) \/ PrintT("@BAD@" \o ToJson([bad |-> bad, n |-> l - 1]))
TypeOK == l \in 1 .. Len(Trace) + 1
==============================================================================
