--------------------------- MODULE FieldHashTrace ----------------------------
(* Recorded field-hash runs and circuits against FieldHash.  The first record  *)
(* of a trace carries the constants.                                           *)
EXTENDS FieldHash, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
C(e) == TLCEval(Trace[1].consts[CHOOSE i \in 1..Len(Trace[1].consts) : Trace[1].consts[i].p = e.q.p])
First(e) ==
  LET h == TLCEval(FieldHash(e.q.h, e.q.b, TLCEval(C(e)), e.q.p)) IN
  IF e.rc # "ok" THEN "rc"
  ELSE IF e.native # h THEN "native"
  ELSE IF e.ret # h THEN "returned"
  ELSE IF e.shape # 1 THEN "shape"
  ELSE IF e.sat # 1 THEN "unsatisfied"
  ELSE IF e.outs = <<>> THEN "no-output"
  ELSE IF \E i \in 1..Len(e.pub) : e.pub[i] # h THEN "public-output"
  ELSE IF e.alt # <<>> THEN "second-image"
  ELSE "ok"
CHUNK == 800
Min(a, b) == IF a < b THEN a ELSE b
VARIABLES l, ph, k, bad, open
vars == <<l, ph, k, bad, open>>
Init == l = 2 /\ ph = 0 /\ k = 1 /\ bad = <<>> /\ open = 0
E == Trace[l]
Done == l' = l + 1 /\ ph' = 0 /\ k' = 1
\* constraints are listed by the last wire they mention: those of wire w sit in span[w]
Step ==
  /\ l <= Len(Trace)
  /\ \/ /\ ph = 0
        /\ \E j \in {TLCEval(First(E))} :
             /\ bad' = IF j = "ok" THEN bad ELSE Append(bad, <<l, j>>)
             /\ UNCHANGED open
             /\ IF j = "ok" /\ E.q.full = 1 THEN ph' = 1 /\ k' = 1 /\ UNCHANGED l ELSE Done
     \/ /\ ph = 1
        /\ \E hi \in {Min(k + CHUNK - 1, Len(E.sys))} :
             /\ UNCHANGED open
             /\ IF \A i \in k..hi : Holds(E.sys[i], E.v, E.q.p)
                THEN IF hi = Len(E.sys) THEN ph' = 2 /\ k' = 1 /\ UNCHANGED <<l, bad>> ELSE k' = hi + 1 /\ UNCHANGED <<l, ph, bad>>
                ELSE bad' = Append(bad, <<l, "unsatisfied">>) /\ Done
     \/ /\ ph = 2
        /\ \E hi \in {Min(k + CHUNK - 1, E.n - 1)} :
             /\ open' = open + Cardinality({w \in k..hi : ~(\E i \in 1..Len(E.given) : E.given[i] = w)
                                                /\ ~UniqueStep(E.sys, E.span[w][1]..E.span[w][2], E.v, w, E.q.p)})
             /\ UNCHANGED bad
             /\ IF hi = E.n - 1 THEN Done ELSE k' = hi + 1 /\ UNCHANGED <<l, ph>>
Spec == Init /\ [][Step]_vars
Report == (l = Len(Trace) + 1) => PrintT("@BAD@" \o ToJson([bad |-> bad, n |-> Len(Trace) - 1, open |-> open]))
TypeOK == l \in 2..(Len(Trace) + 1) /\ ph \in 0..2
==============================================================================
