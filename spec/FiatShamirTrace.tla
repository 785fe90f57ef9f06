-------------------------- MODULE FiatShamirTrace ----------------------------
(* Checks the challenges recorded in runs of the verifiers: with one element of *)
(* the statement or the proof altered, every challenge after it is another one. *)
EXTENDS FiatShamir, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, pos, total, unk, bad
vars == <<l, pos, total, unk, bad>>
Init == l = 1 /\ pos = <<>> /\ total = 0 /\ unk = 0 /\ bad = <<>>
Steps(e) == Protocol(e.proto, e.sz)
(* the verifier draws every coin of the protocol, from the same transcript as the prover *)
HonestOk(e) == /\ WellFormed(Steps(e))
               /\ e.res = "accept" => (Len(e.v) >= Total(Steps(e)) /\ IsSubSeqOf(SubSeq(e.v, 1, Total(Steps(e))), e.p))
Known(e) == {i \in 1..Len(e.elems) : e.elems[i] \in DOMAIN pos}
AlterOk(e) ==
  Known(e) # {} =>
    LET m == Min({pos[e.elems[i]] : i \in Known(e)})
    IN \A i \in 1..Len(e.eq) : e.eq[i] <= m \/ e.eq[i] > total
Step ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     /\ l' = l + 1
     /\ IF e.ev = "honest"
        THEN /\ pos' = TLCEval(Position(Steps(e))) /\ total' = Total(Steps(e)) /\ UNCHANGED unk
             /\ bad' = IF HonestOk(e) THEN bad ELSE Append(bad, l)
        ELSE /\ UNCHANGED <<pos, total>>
             /\ unk' = unk + Len(e.elems) - Cardinality(Known(e))
             /\ bad' = IF AlterOk(e) THEN bad ELSE Append(bad, l)
Spec == Init /\ [][Step]_vars
Report == (l = Len(Trace) + 1) => PrintT("@BAD@" \o ToJson([bad |-> bad, n |-> Len(Trace), unk |-> unk]))
TypeOK == Len(bad) <= Len(Trace)
==============================================================================
