------------------------------- MODULE CLITrace ------------------------------
(* What the real commands did, against CLI.                                    *)
EXTENDS CLI, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, inst, st, bad, seen
vars == <<l, inst, st, bad, seen>>
Init == l = 1 /\ inst = -1 /\ st = Start /\ bad = <<>> /\ seen = [yes |-> 0, no |-> 0, made |-> 0, refused |-> 0]
Exists(e) == e.slot \in Slots /\ st.files[e.slot].there
Kind(e) ==
  CASE e.op = "setup" -> IF e.ok = (Known(e.scheme, e.circ, e.curve) /\ HasSetup(e.scheme)) THEN "ok" ELSE "setup"
    [] e.op = "prove" -> IF ~CanProve(st, e) THEN (IF e.wrote \/ e.ok THEN "prove:refuse" ELSE "ok")
                         ELSE IF e.truth /\ ~(e.wrote /\ e.ok) THEN "prove:fail"
                         ELSE IF ~e.wrote THEN "ok"
                         ELSE IF e.rec = e.stmt /\ e.header = <<e.scheme, e.circ, e.curve>> THEN "ok" ELSE "prove:record"
    [] e.op = "verify" -> LET f == st.files[e.slot] IN
                         IF (e.got = "true") = Accepts(st, f) THEN "ok"
                         ELSE IF e.got # "true" THEN "verify:reject:" \o f.scheme
                         ELSE IF CarriedOver(f) THEN "verify:accept:carried:" \o f.scheme ELSE "verify:accept:" \o f.scheme
    [] e.op = "binding" -> IF ~e.honest THEN "circuit:unsatisfied:" \o e.circ ELSE IF ~e.bound THEN "circuit:unbound:" \o e.circ ELSE "ok"
    [] OTHER -> IF e.there = Exists(e) THEN "ok" ELSE "harness"
Count(e) == CASE e.op = "verify" -> IF e.got = "true" THEN [seen EXCEPT !.yes = @ + 1] ELSE [seen EXCEPT !.no = @ + 1]
              [] e.op = "prove" -> IF e.wrote THEN [seen EXCEPT !.made = @ + 1] ELSE [seen EXCEPT !.refused = @ + 1]
              [] OTHER -> seen
Step ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     IF e.inst # inst
     THEN st' = Start /\ inst' = e.inst /\ UNCHANGED <<l, bad, seen>>
     ELSE /\ l' = l + 1 /\ UNCHANGED inst
          /\ bad' = IF Kind(e) = "ok" THEN bad ELSE Append(bad, [line |-> l, kind |-> Kind(e)])
          /\ st' = Apply(st, e)
          /\ seen' = Count(e)
Spec == Init /\ [][Step]_vars
Report == (l = Len(Trace) + 1) => PrintT("@BAD@" \o ToJson([bad |-> bad, n |-> Len(Trace), seen |-> seen]))
TypeInv == TypeOK(st)
==============================================================================
