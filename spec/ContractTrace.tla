---------------------------- MODULE ContractTrace ----------------------------
(* What the contracts answered, against Contract; and against the library's    *)
(* verdict on the same bytes.                                                  *)
EXTENDS Contract, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, seen
vars == <<l, bad, seen>>
Init == l = 1 /\ bad = <<>> /\ seen = [unlocked |-> 0, verify |-> 0, encoding |-> 0, missing |-> 0, flip |-> 0]
Flipped(e) == \E i \in 1..3 : e.cells[i].dmg = "flip"
Trailing(e) == \E i \in 1..3 : e.cells[i].dmg = "trail"
RECURSIVE Run(_, _, _)
Run(sch, t, m) == IF m.at = "done" THEN m.code ELSE Run(sch, t, Next1(sch, t, m))
Way(e) == Run(e.scheme, e.cells, Begin)
\* right about everything but whose circuit it is
Foreign(e) == /\ e.scheme \in Carried /\ \A i \in 2..3 : Decodes(e.scheme, i, e.cells[i])
              /\ e.cells[2].bad = 0 /\ e.cells[3].s = e.cells[2].s /\ Circuit(e.cells[2].k) # 1
Kind(e) ==
  LET yes == e.code = 0  want == Accepts(e.scheme, e.cells) IN
  IF Flipped(e) THEN (IF yes = e.lib THEN "ok" ELSE "differs:" \o e.scheme)
  ELSE IF Trailing(e) THEN (IF yes /\ ~want THEN "accept:" \o e.scheme ELSE "ok")
  ELSE IF yes /\ ~want THEN (IF Foreign(e) THEN "accept:foreign:" \o e.scheme ELSE "accept:" \o e.scheme)
  ELSE IF ~yes /\ want THEN "reject:" \o e.scheme
  ELSE IF yes # e.lib THEN "differs:" \o e.scheme ELSE "ok"
Count(e) == IF Flipped(e) THEN [seen EXCEPT !.flip = @ + 1] ELSE [seen EXCEPT ![Way(e)] = @ + 1]
Step == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           /\ l' = l + 1 /\ seen' = Count(e)
           /\ bad' = IF Kind(e) = "ok" THEN bad ELSE Append(bad, [line |-> l, kind |-> Kind(e)])
Spec == Init /\ [][Step]_vars
Report == (l = Len(Trace) + 1) => PrintT("@BAD@" \o ToJson([bad |-> bad, n |-> Len(Trace), seen |-> seen]))
==============================================================================
