-------------------------------- MODULE CLIMC --------------------------------
(* One key pair of schemes and circuits, every interleaving of setups, proofs, *)
(* copies and edits.  The history remembers what the prover really proved:     *)
(* whatever is accepted was proved, with these setup files, about the recorded *)
(* value; and an untouched proof of a true statement is accepted until the     *)
(* next setup.                                                                 *)
EXTENDS CLI
CONSTANT Depth
VARIABLES st, n, proved, pristine
vars == <<st, n, proved, pristine>>
Ks == {<<"groth16", "mini">>, <<"groth16", "hash">>, <<"bulletproofs", "mini">>}
KS == {Key(k[1], k[2]) : k \in Ks}
Vals == {"a", "b"}
Ev(o) == [op |-> o, scheme |-> "", circ |-> "", curve |-> "bls12_381", slot |-> "kept", stmt |-> "", truth |-> FALSE, sane |-> TRUE, wrote |-> FALSE, hex |-> ""]
Init == st = Start /\ n = 0 /\ proved = {} /\ pristine = {}
\* the files that still are what the prover wrote last, for the present setup
Do(e, keep) == n < Depth /\ n' = n + 1 /\ st' = Apply(st, e) /\ UNCHANGED proved /\ pristine' = pristine \ keep
Setup == \E k \in Ks : Do([Ev("setup") EXCEPT !.scheme = k[1], !.circ = k[2]], IF HasSetup(k[1]) THEN {Key(k[1], k[2])} ELSE {})
Drop == \E k \in Ks : HasSetup(k[1]) /\ Do([Ev("drop") EXCEPT !.scheme = k[1], !.circ = k[2]], {Key(k[1], k[2])})
Prove == \E k \in Ks, v \in Vals, t \in BOOLEAN, s \in BOOLEAN, w \in BOOLEAN :
  LET e == [Ev("prove") EXCEPT !.scheme = k[1], !.circ = k[2], !.stmt = v, !.truth = t, !.sane = s, !.wrote = w] IN
  /\ n < Depth /\ n' = n + 1
  /\ w => CanProve(st, e)
  /\ (t /\ CanProve(st, e)) => w
  /\ st' = Apply(st, e)
  /\ proved' = IF w /\ t THEN proved \cup {[k |-> Key(k[1], k[2]), v |-> v, g |-> st'.files[Key(k[1], k[2])].gen]} ELSE proved
  /\ pristine' = IF w THEN (IF t THEN pristine \cup {Key(k[1], k[2])} ELSE pristine \ {Key(k[1], k[2])}) ELSE pristine
Copy == \E o \in {"keep", "graft", "restore"} : \E k \in KS : Do([Ev(o) EXCEPT !.slot = k], IF o = "keep" THEN {"kept"} ELSE {k})
Change == \E s \in KS \cup {"kept"} : \E o \in Edits : \E c \in Circuits, sc \in {"groth16", "bulletproofs"}, v \in Vals :
  /\ (o = "relabel" \/ c = "mini") /\ (o = "rescheme" \/ sc = "groth16") /\ (o \in {"setrec", "relabel"} \/ v = "a")
  /\ Do([Ev(o) EXCEPT !.slot = s, !.circ = c, !.scheme = sc, !.stmt = v], {s})
Next == Setup \/ Drop \/ Prove \/ Copy \/ Change
Spec == Init /\ [][Next]_vars
Sound == \A s \in KS \cup {"kept"} : Accepts(st, st.files[s]) =>
  LET f == st.files[s]  k == Key(f.scheme, f.circ) IN [k |-> k, v |-> f.rec, g |-> st.gen[k]] \in proved
Complete == \A k \in pristine : Accepts(st, st.files[k])
TypeInv == TypeOK(st)
==============================================================================
