--------------------------------- MODULE CLI ---------------------------------
(* The command line tool: setup, zkp-prove and zkp-verify talk through files.  *)
(* A proof file is a header (scheme, circuit, recorded public value) and a     *)
(* payload; the payload speaks about what it was made for.  Setup files have a *)
(* generation: running setup again makes new ones, and nothing made with the   *)
(* old ones counts any more.                                                   *)
EXTENDS Integers, Sequences, TLC
Schemes == {"groth16", "bulletproofs", "spartan_nizk", "spartan_snark"}
Circuits == {"mini", "hash"}
Key(s, c) == s \o "-" \o c
Keys == {Key(s, c) : s \in Schemes, c \in Circuits}
Slots == Keys \cup {"kept"}
HasSetup(s) == s # "bulletproofs"
Blank == [there |-> FALSE, scheme |-> "", circ |-> "", rec |-> "", ps |-> "", pc |-> "", gen |-> 0, stmt |-> "", truth |-> FALSE, whole |-> FALSE, hex |-> ""]
Start == [gen |-> [k \in Keys |-> 0], files |-> [s \in Slots |-> Blank], clock |-> 0]
Known(s, c, v) == s \in Schemes /\ c \in Circuits /\ v = "bls12_381"
(* zkp-verify says "Verify is: true" exactly for these                         *)
Accepts(st, f) ==
  /\ f.there /\ f.whole /\ f.truth
  /\ f.scheme = f.ps /\ f.circ = f.pc /\ f.rec = f.stmt
  /\ HasSetup(f.scheme) => (st.gen[Key(f.scheme, f.circ)] > 0 /\ f.gen = st.gen[Key(f.scheme, f.circ)])
(* hex: the proven number written the way the hash circuit records its value:  *)
(* a file of the first circuit carried over, number and all, to the second     *)
CarriedOver(f) == f.whole /\ f.truth /\ f.scheme = f.ps /\ f.circ = "hash" /\ f.pc = "mini" /\ f.rec = f.hex
CanProve(st, e) == Known(e.scheme, e.circ, e.curve) /\ e.sane /\ (HasSetup(e.scheme) => st.gen[Key(e.scheme, e.circ)] > 0)
Made(st, e) == [there |-> TRUE, scheme |-> e.scheme, circ |-> e.circ, rec |-> e.stmt, ps |-> e.scheme, pc |-> e.circ,
                gen |-> IF HasSetup(e.scheme) THEN st.gen[Key(e.scheme, e.circ)] ELSE 0, stmt |-> e.stmt, truth |-> e.truth, whole |-> TRUE, hex |-> e.hex]
\* payload of g under the header of f
Graft(f, g) == [f EXCEPT !.ps = g.ps, !.pc = g.pc, !.gen = g.gen, !.stmt = g.stmt, !.truth = g.truth, !.whole = g.whole, !.hex = g.hex]
Edit(f, e) ==
  CASE e.op = "setrec" -> [f EXCEPT !.rec = e.stmt]
    [] e.op = "relabel" -> [f EXCEPT !.circ = e.circ, !.rec = e.stmt]
    [] e.op = "rescheme" -> [f EXCEPT !.scheme = e.scheme]
    [] e.op \in {"cut", "flip", "mangle"} -> [f EXCEPT !.whole = FALSE]
    [] e.op = "erase" -> Blank
Edits == {"setrec", "relabel", "rescheme", "cut", "flip", "mangle", "erase"}
(* e.wrote: a prover run left a new proof file                                 *)
Apply(st, e) ==
  CASE e.op = "setup" -> IF Known(e.scheme, e.circ, e.curve) /\ HasSetup(e.scheme)
                         THEN [st EXCEPT !.clock = @ + 1, !.gen[Key(e.scheme, e.circ)] = st.clock + 1] ELSE st
    [] e.op = "drop" -> [st EXCEPT !.gen[Key(e.scheme, e.circ)] = 0]
    [] e.op = "prove" -> IF e.wrote /\ CanProve(st, e) THEN [st EXCEPT !.files[Key(e.scheme, e.circ)] = Made(st, e)] ELSE st
    [] e.op = "keep" -> IF st.files[e.slot].there THEN [st EXCEPT !.files["kept"] = st.files[e.slot]] ELSE st
    [] e.op = "graft" -> IF st.files[e.slot].there /\ st.files["kept"].there THEN [st EXCEPT !.files[e.slot] = Graft(@, st.files["kept"])] ELSE st
    [] e.op = "restore" -> IF st.files["kept"].there THEN [st EXCEPT !.files[e.slot] = st.files["kept"]] ELSE st
    [] e.op \in Edits -> IF st.files[e.slot].there THEN [st EXCEPT !.files[e.slot] = Edit(@, e)] ELSE st
    [] OTHER -> st
TypeOK(st) == /\ DOMAIN st.gen = Keys /\ DOMAIN st.files = Slots /\ \A k \in Keys : st.gen[k] \in 0..st.clock
==============================================================================
