---------------------------- MODULE LinCombTrace -----------------------------
(* Recorded results of the real operators against LinComb.                     *)
EXTENDS LinComb, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, inst, reg, bad
vars == <<l, inst, reg, bad>>
Init == l = 1 /\ inst = -1 /\ reg = [r \in Regs |-> Zero] /\ bad = <<>>
RECURSIVE Collect(_, _)
Collect(terms, n) ==
  IF n = 0 THEN Zero
  ELSE LET f == Collect(terms, n - 1) IN [f EXCEPT ![terms[n][1]] = (@ + terms[n][2]) % P]
Ok(e) == e.res = "ok" /\ (\A i \in 1..Len(e.r) : e.r[i][1] \in V) /\ Collect(e.r, Len(e.r)) = Result(reg, e)
Step ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     IF e.inst # inst
     THEN reg' = [r \in Regs |-> Zero] /\ inst' = e.inst /\ UNCHANGED <<l, bad>>
     ELSE /\ l' = l + 1 /\ UNCHANGED inst
          /\ bad' = IF Ok(e) THEN bad ELSE Append(bad, l)
          /\ reg' = Apply(reg, e)
Spec == Init /\ [][Step]_vars
Report == (l = Len(Trace) + 1) => PrintT("@BAD@" \o ToJson([bad |-> bad, n |-> Len(Trace)]))
TypeOK == Len(bad) <= Len(Trace)
==============================================================================
