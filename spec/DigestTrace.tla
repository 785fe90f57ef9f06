----------------------------- MODULE DigestTrace -----------------------------
(* Digests recorded from the implementation, family by family.                 *)
EXTENDS Digest, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, fam, seen, bad
vars == <<l, fam, seen, bad>>
Init == l = 1 /\ fam = -1 /\ seen = {} /\ bad = <<>>
Step ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     IF e.fam # fam THEN fam' = e.fam /\ seen' = {} /\ UNCHANGED <<l, bad>>
     ELSE /\ l' = l + 1 /\ UNCHANGED fam
          /\ bad' = IF e.res = "ok" /\ Binds(seen, e.kind, e.x, e.h) THEN bad ELSE Append(bad, l)
          /\ seen' = IF e.res = "ok" THEN seen \cup {[x |-> e.x, m |-> Meaning(e.kind, e.x), h |-> e.h]} ELSE seen
Spec == Init /\ [][Step]_vars
Report == (l = Len(Trace) + 1) => PrintT("@BAD@" \o ToJson([bad |-> bad, n |-> Len(Trace)]))
==============================================================================
