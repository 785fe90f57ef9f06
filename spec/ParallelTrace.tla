--------------------------- MODULE ParallelTrace ---------------------------
(* Outputs of one instance under the sequential build, then under the      *)
(* parallel build with several thread counts.  Parallel.tla shows that     *)
(* every schedule of a deterministic section ends in the sequential        *)
(* outcome; here every configuration's outputs are the sequential ones.    *)
EXTENDS Integers, Sequences, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ref, pos, bad
vars == <<l, ref, pos, bad>>
Init == l = 1 /\ ref = <<>> /\ pos = 0 /\ bad = <<>>
E == Trace[l]
Same == <<E.what, E.len, E.dig>>
Step == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ CASE E.ev = "start" /\ E.cfg = "seq" -> ref' = <<>> /\ pos' = 0 /\ bad' = bad
             [] E.ev = "start" /\ E.cfg # "seq" -> ref' = ref /\ pos' = 0 /\ bad' = bad
             [] E.ev = "out" /\ E.cfg = "seq" -> ref' = Append(ref, Same) /\ pos' = pos + 1 /\ bad' = bad
             [] E.ev = "out" /\ E.cfg # "seq" ->
                  /\ ref' = ref /\ pos' = pos + 1
                  /\ bad' = IF pos < Len(ref) /\ (ref[pos + 1] = Same) THEN bad ELSE Append(bad, l)
             [] E.ev = "end" -> ref' = ref /\ pos' = pos /\ bad' = IF pos = Len(ref) THEN bad ELSE Append(bad, l)
Spec == Init /\ [][Step]_vars
Report == l <= Len(Trace) \/ PrintT("@BAD@" \o ToJson([bad |-> bad, n |-> l - 1]))
TypeOK == l \in 1 .. Len(Trace) + 1
=============================================================================
