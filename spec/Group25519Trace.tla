--------------------------- MODULE Group25519Trace ---------------------------
(* Recorded results of the real wrapper against Group25519.                    *)
EXTENDS Group25519, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, inst, reg, bad
vars == <<l, inst, reg, bad>>
Init == l = 1 /\ inst = -1 /\ reg = Init0 /\ bad = <<>>
Asked(e) == e.d = 0
(* the recorded destination register: equal to the registers it should equal,  *)
(* by ==, by its bytes and by its hash; zero and one; its bytes                *)
Ok(e, rg) ==
  IF e.res # "ok" THEN FALSE
  ELSE IF Asked(e) THEN e.ans = Answer(reg, e)
  ELSE LET v == rg[e.d] IN
    /\ \A r \in RegsOf(IF e.d \in SR THEN "S" ELSE "P") :
         LET i == IF e.d \in SR THEN r ELSE r - 4
             same == rg[r] = v IN e.eq[i] = same /\ e.enc[i] = same /\ e.heq[i] = same
    /\ e.zero = IsZero(v)
    /\ (e.d \in SR => e.one = (v = Mono(1, 0)))
    /\ ((e.d \in SR /\ v.d = 1) => e.y = Bytes(v))
    /\ ((e.d \in PR /\ v.d = 1 /\ v.c[1] \in 0..5 /\ \A i \in 2..8 : v.c[i] = 0) => e.y = Multiples[v.c[1] + 1])
    /\ Len(e.y) = e.len
Step ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     IF e.inst # inst
     THEN reg' = Init0 /\ inst' = e.inst /\ UNCHANGED <<l, bad>>
     ELSE LET rg == IF Asked(e) THEN reg ELSE [reg EXCEPT ![e.d] = TLCEval(Result(reg, e))] IN
          /\ l' = l + 1 /\ UNCHANGED inst
          /\ bad' = IF (Ok(e, rg) = TRUE) THEN bad ELSE Append(bad, l)
          /\ reg' = rg
Spec == Init /\ [][Step]_vars
Report == (l = Len(Trace) + 1) => PrintT("@BAD@" \o ToJson([bad |-> bad, n |-> Len(Trace)]))
TypeOK == Len(bad) <= Len(Trace)
==============================================================================
