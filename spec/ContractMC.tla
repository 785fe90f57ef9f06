------------------------------ MODULE ContractMC -----------------------------
(* Every transaction over the documents, run through the script.               *)
EXTENDS Contract
VARIABLES sch, tx, m
vars == <<sch, tx, m>>
Cell(i) == {[doc |-> d, k |-> k, s |-> s, bad |-> b, dmg |-> g] : d \in Docs, k \in Keys(sch), s \in 1..2, b \in 0..1, g \in {"none", "trail", "cut", "missing"}}
\* a cell of its kind in every version; one cell at a time of a wrong kind or damaged
Right(i) == {c \in Cell(i) : c.doc = Wanted[i] /\ c.dmg = "none" /\ (i # 2 => c.bad = 0) /\ (i = 1 => c.s = 1)}
Odd(i) == {c \in Cell(i) : (c.doc # "proof" => c.bad = 0) /\ (c.doc = "vk" => c.s = 1)}
Init == /\ sch \in Schemes /\ m = Begin
        /\ \E i \in 1..3 : \E c \in Odd(i), a \in Right(1), p \in Right(2), x \in Right(3) :
             tx = [<<a, p, x>> EXCEPT ![i] = c]
Next == m.at # "done" /\ m' = Next1(sch, tx, m) /\ UNCHANGED <<sch, tx>>
Spec == Init /\ [][Next]_vars
Done == m.at = "done"
\* the machine decides what Accepts says
Agree == Done => ((m.code = "unlocked") = Accepts(sch, tx))
\* nothing is unlocked without a witness for the public statement
Sound == (Done /\ m.code = "unlocked") => Justified(sch, tx)
\* a holder of a witness can unlock
Complete == (Done /\ Honest(tx) /\ Justified(sch, tx) /\ tx[1].k = tx[2].k /\ tx[3].k = tx[2].k) => m.code = "unlocked"
\* no cell is redundant
Needed == (Done /\ m.code = "unlocked") =>
            \A i \in 1..3 : ~Accepts(sch, [tx EXCEPT ![i].dmg = "missing"])
Bound == (Done /\ m.code = "unlocked") =>
           /\ ~Accepts(sch, [tx EXCEPT ![3].s = 3 - @])
           /\ ~Accepts(sch, [tx EXCEPT ![2].s = 3 - @])
           /\ sch \in Universal => ~Accepts(sch, [tx EXCEPT ![1].k = 1 + (@ % 3)])
           /\ ~Accepts(sch, [tx EXCEPT ![2].bad = 1])
Order == Done /\ m.code = "missing" => tx[m.i].dmg = "missing" /\ \A j \in 1..(m.i - 1) : tx[j].dmg # "missing"
==============================================================================
