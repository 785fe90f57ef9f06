---------------------------- MODULE GadgetsTrace -----------------------------
EXTENDS Gadgets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>
Init == l = 1 /\ bad = <<>>
Step == /\ l <= Len(Trace)
        /\ \E j \in {TLCEval(Judge(Trace[l]))} : bad' = IF j = "ok" THEN bad ELSE Append(bad, <<l, j>>)
        /\ l' = l + 1
Spec == Init /\ [][Step]_vars
Report == (l = Len(Trace) + 1) => PrintT("@BAD@" \o ToJson([bad |-> bad, n |-> Len(Trace)]))
TypeOK == l \in 1..(Len(Trace) + 1)
==============================================================================
