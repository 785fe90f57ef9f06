----------------------------- MODULE ProofSystem -----------------------------
(* The ideal proof system over R1CS.  State: circuits, keys (each for one      *)
(* circuit), proofs (each made with one key from one assignment).  The ideal   *)
(* verifier knows how a proof came about; a real verifier must agree with it   *)
(* on every history.                                                           *)
EXTENDS R1CS

VARIABLES circ,    \* circuit id -> constraints
          key,     \* key id -> circuit id
          proof    \* proof id -> [k, x, w]

psvars == <<circ, key, proof>>

Genuine(p) == Holds(circ[key[proof[p].k]], proof[p].x, proof[p].w)

(* what the ideal verifier says: "accept" or "reject" *)
Ideal(k, p, x) ==
  IF k = proof[p].k /\ x = proof[p].x /\ Genuine(p) THEN "accept" ELSE "reject"

PSInit == circ = <<>> /\ key = <<>> /\ proof = <<>>

Put(f, i, v) == [j \in (DOMAIN f) \cup {i} |-> IF j = i THEN v ELSE f[j]]

Declare(c, cons) == circ' = Put(circ, c, cons) /\ UNCHANGED <<key, proof>>
Setup(k, c) == key' = Put(key, k, c) /\ UNCHANGED <<circ, proof>>
Prove(p, k, x, w) == proof' = Put(proof, p, [k |-> k, x |-> x, w |-> w]) /\ UNCHANGED <<circ, key>>
Verify(k, p, x) == UNCHANGED psvars
=============================================================================
