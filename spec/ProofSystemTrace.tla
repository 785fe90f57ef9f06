-------------------------- MODULE ProofSystemTrace ---------------------------
(* Trace validation: every recorded event of the implementation must be a step *)
(* of the ideal proof system with the recorded outcome.  PROP selects the half *)
(* that is checked: "complete" (honest histories end in accept) or "sound"     *)
(* (the ideal verifier's rejections are rejections).                           *)
EXTENDS ProofSystem, TLC, Json, IOUtils, Sequences

Trace == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP

VARIABLES l, inst, bad
vars == <<circ, key, proof, l, inst, bad>>

Init == PSInit /\ l = 1 /\ inst = -1 /\ bad = <<>>

(* "reject" stands for any outcome in which the proof is not accepted *)
Rejected(r) == r \in {"reject", "error", "panic", "malformed"}

Ok(e) ==
  CASE e.ev = "circuit" -> TRUE
    [] e.ev = "setup" -> PROP = "sound" \/ e.res = "ok"
    [] e.ev = "prove" ->
         (PROP = "complete" /\ Holds(circ[key[e.k]], e.x, e.w)) => e.res = "ok"
    [] e.ev = "verify" ->
         IF Ideal(e.k, e.p, e.x) = "accept"
         THEN PROP = "complete" => e.res = "accept"
         ELSE PROP = "sound" => Rejected(e.res)
    (* altered proofs: an alteration that changed the proof is not accepted *)
    [] e.ev = "tamper" -> (PROP = "sound" /\ ~e.same) => Rejected(e.res)
    [] OTHER -> FALSE

Apply(e) ==
  CASE e.ev = "circuit" -> Declare(e.c, e.cons)
    [] e.ev = "setup" -> Setup(e.k, e.c)
    [] e.ev = "prove" -> Prove(e.p, e.k, e.x, e.w)
    [] OTHER -> UNCHANGED psvars

(* a new instance forgets the registers of the previous one *)
Step ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     IF e.inst # inst
     THEN /\ circ' = <<>> /\ key' = <<>> /\ proof' = <<>>
          /\ inst' = e.inst /\ UNCHANGED <<l, bad>>
     ELSE /\ Apply(e) /\ UNCHANGED inst /\ l' = l + 1
          /\ bad' = IF Ok(e) THEN bad ELSE Append(bad, l)

Spec == Init /\ [][Step]_vars

(* vacuity counters, and the verdict *)
Report ==
  (l = Len(Trace) + 1) => PrintT("@BAD@" \o ToJson([bad |-> bad, n |-> Len(Trace)]))
TypeOK == Len(bad) <= Len(Trace)
=============================================================================
