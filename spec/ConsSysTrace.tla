---------------------------- MODULE ConsSysTrace -----------------------------
(* Results recorded from the real constraint system against ConsSys.           *)
EXTENDS ConsSys, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, inst, st, bad, seen
vars == <<l, inst, st, bad, seen>>
Init == l = 1 /\ inst = -1 /\ st = Fresh /\ bad = <<>> /\ seen = {}
Step ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     IF e.inst # inst
     THEN st' = Fresh /\ inst' = e.inst /\ UNCHANGED <<l, bad, seen>>
     ELSE IF e.op = "hash"
     THEN (* the hash is a function of the committed system, and an injective one, over all histories so far *)
          LET m == Committed(st) IN
          /\ l' = l + 1 /\ UNCHANGED <<inst, st>>
          /\ bad' = IF e.r.t = "hash" /\ \A x \in seen : (x.m = m) <=> (x.h = e.r.h) THEN bad ELSE Append(bad, l)
          /\ seen' = seen \cup {[m |-> m, h |-> e.r.h]}
     ELSE LET x == Apply(st, e) IN
          /\ l' = l + 1 /\ UNCHANGED <<inst, seen>>
          /\ bad' = IF x.r = [t |-> e.r.t, v |-> e.r.v, p |-> e.r.p] THEN bad ELSE Append(bad, l)
          /\ st' = x.st
Spec == Init /\ [][Step]_vars
Report == (l = Len(Trace) + 1) => PrintT("@BAD@" \o ToJson([bad |-> bad, n |-> Len(Trace)]))
TypeOK == Consistent(st)
==============================================================================
