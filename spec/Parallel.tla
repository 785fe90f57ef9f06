------------------------------ MODULE Parallel ------------------------------
(***************************************************************************)
(* The fork/join execution of a data-parallel section (P28): a list of     *)
(* items is split into contiguous segments in any way, any number of       *)
(* workers up to the limit process segments item by item in any            *)
(* interleaving, and adjacent finished segments are joined.  A section     *)
(* maps each item to its place in the output and folds items into an       *)
(* accumulator that starts, per segment, at the identity.                  *)
(*                                                                         *)
(* A section may also draw from the shared random stream (Draw): such a    *)
(* section is not deterministic, and is what the code must not do.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS P,        \* items and sums are taken modulo P
          Workers,  \* at most this many segments run at a time
          Identity, \* what a segment's accumulator starts from
          Draw      \* whether the body draws from the shared stream
VARIABLES items,    \* the input
          segs,     \* segments: [lo, hi, st, pos, acc]
          out,      \* the mapped output, in input order
          drawn     \* how much of the random stream was used

pvars == <<items, segs, out, drawn>>
Body(v, k) == (v * v + (IF Draw THEN k ELSE 0)) % P
RECURSIVE SeqOut(_, _), SeqSum(_, _)
SeqOut(v, k) == IF k = 0 THEN <<>> ELSE Append(SeqOut(v, k - 1), Body(v[k], k))
SeqSum(v, k) == IF k = 0 THEN 0 ELSE (SeqSum(v, k - 1) + v[k]) % P

Start(v) == /\ items = v
            /\ segs = {[lo |-> 1, hi |-> Len(v), st |-> "todo", pos |-> 1, acc |-> Identity]}
            /\ out = [k \in 1 .. Len(v) |-> 0]
            /\ drawn = 0
Split == \E s \in segs : /\ s.st = "todo" /\ s.hi > s.lo
            /\ \E m \in s.lo .. s.hi - 1 :
                 segs' = (segs \ {s}) \cup {[s EXCEPT !.hi = m], [s EXCEPT !.lo = m + 1, !.pos = m + 1]}
            /\ UNCHANGED <<items, out, drawn>>
Run == \E s \in segs : /\ s.st = "todo" /\ Cardinality({r \in segs : r.st = "run"}) < Workers
            /\ segs' = (segs \ {s}) \cup {[s EXCEPT !.st = "run"]}
            /\ UNCHANGED <<items, out, drawn>>
Item == \E s \in segs : /\ s.st = "run" /\ s.pos <= s.hi
            /\ drawn' = drawn + 1
            /\ out' = [out EXCEPT ![s.pos] = Body(items[s.pos], drawn + 1)]
            /\ segs' = (segs \ {s}) \cup {[s EXCEPT !.pos = @ + 1, !.acc = (@ + items[s.pos]) % P]}
            /\ UNCHANGED items
Finish == \E s \in segs : /\ s.st = "run" /\ s.pos > s.hi
            /\ segs' = (segs \ {s}) \cup {[s EXCEPT !.st = "done"]}
            /\ UNCHANGED <<items, out, drawn>>
Join == \E s \in segs, t \in segs : /\ s.st = "done" /\ t.st = "done" /\ s.hi + 1 = t.lo
            /\ segs' = (segs \ {s, t}) \cup {[s EXCEPT !.hi = t.hi, !.pos = t.pos, !.acc = (s.acc + t.acc) % P]}
            /\ UNCHANGED <<items, out, drawn>>
PNext == Split \/ Run \/ Item \/ Finish \/ Join

Over == \A s \in segs : s.st = "done" /\ s.lo = 1 /\ s.hi = Len(items)
(* whatever the split and the schedule, the outcome is the sequential one  *)
Deterministic == Over => /\ \A s \in segs : s.acc = SeqSum(items, Len(items))
                         /\ out = SeqOut(items, Len(items))
=============================================================================
