------------------------------ MODULE Contract -------------------------------
(* The on-chain verifiers of ckb-contracts: a script reads three cells of the  *)
(* transaction, in order, decodes them and runs the library's verifier.  A    *)
(* cell is described by where its bytes come from: a document of a scheme --  *)
(* the verification key of key pair k, a proof made under key pair k for      *)
(* statement s (bad = 0; 1: with a false witness, 2 or 3: with an evaluation or *)
(* commitment taken out), the public values of statement s -- and by what was *)
(* done to the bytes.  Key pairs 1 and 2 belong to the contract's circuit, key *)
(* pair 3 to another one, 4 and 5 to circuits with two public values and none: *)
(* a contract hands exactly one to the verifier.                              *)
EXTENDS Naturals, Sequences, FiniteSets
Universal == {"groth16", "marlin", "spartan_nizk", "spartan_snark", "plonk"}
Fixed == {"libra", "hyrax"}                  \* the circuit is part of the contract, the key is its parameters
Carried == {"bulletproofs"}                  \* parameters travel with the proof, the circuit is the contract's
Schemes == Universal \cup Fixed \cup Carried
Docs == {"vk", "proof", "public"}
Whole == {"none", "trail"}                   \* trailing bytes are not read
Broken == {"missing", "cut", "half", "empty"}
Wanted == <<"vk", "proof", "public">>
Circuit(k) == CASE k = 3 -> 2 [] k = 4 -> 3 [] k = 5 -> 4 [] OTHER -> 1
Arity(c) == CASE c = 3 -> 2 [] c = 4 -> 0 [] OTHER -> 1
Keys(sch) == IF sch \in Fixed \cup {"plonk"} THEN 1..3 ELSE 1..5
\* which parameters a key pair stands for
Param(sch, k) == IF sch \in Fixed THEN (IF k = 2 THEN 2 ELSE 1) ELSE k
\* what the public cell says: the values alone, or the values of this circuit
Says(sch, k, s) == IF sch \in Fixed \cup {"plonk"} THEN <<s, Circuit(k)>> ELSE <<s, 0>>

\* ---- the script
Readable(c) == c.dmg # "missing"
\* cell 0 is not decoded where there is no key
Decodes(sch, i, c) == (i = 1 /\ sch \in Carried) \/ (c.dmg \in Whole /\ c.doc = Wanted[i])
Verifies(sch, t) ==
  LET v == t[1]  p == t[2]  x == t[3] IN
  /\ p.bad = 0
  /\ sch \notin Carried => Param(sch, v.k) = Param(sch, p.k)
  /\ Arity(Circuit(p.k)) = 1
  /\ Circuit(p.k) = (IF sch \in Universal THEN Circuit(v.k) ELSE 1)
  /\ Says(sch, x.k, x.s) = Says(sch, p.k, p.s)
Accepts(sch, t) == /\ \A i \in 1..3 : Readable(t[i])
                   /\ \A i \in 1..3 : Decodes(sch, i, t[i])
                   /\ Verifies(sch, t)
\* as a machine: it stops at the first thing that is wrong
Begin == [at |-> "read", i |-> 1, code |-> "running"]
Next1(sch, t, m) ==
  CASE m.at = "read" -> IF ~Readable(t[m.i]) THEN [m EXCEPT !.at = "done", !.code = "missing"]
                        ELSE IF m.i = 3 THEN [m EXCEPT !.at = "decode", !.i = 1] ELSE [m EXCEPT !.i = @ + 1]
    [] m.at = "decode" -> IF ~Decodes(sch, m.i, t[m.i]) THEN [m EXCEPT !.at = "done", !.code = "encoding"]
                          ELSE IF m.i = 3 THEN [m EXCEPT !.at = "verify"] ELSE [m EXCEPT !.i = @ + 1]
    [] m.at = "verify" -> [m EXCEPT !.at = "done", !.code = IF Verifies(sch, t) THEN "unlocked" ELSE "verify"]
    [] OTHER -> m
\* ---- what is wanted
\* somebody knew a witness of the statement that the contract is about, and it is the public one
Justified(sch, t) ==
  /\ t[2].doc = "proof" /\ t[2].bad = 0
  /\ t[3].doc = "public" /\ t[3].s = t[2].s /\ Arity(Circuit(t[2].k)) = 1
  /\ IF sch \in Universal THEN t[1].doc = "vk" /\ t[1].k = t[2].k ELSE Circuit(t[2].k) = 1
Honest(t) == \A i \in 1..3 : t[i].doc = Wanted[i] /\ t[i].dmg = "none"
==============================================================================
