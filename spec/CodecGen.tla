------------------------------ MODULE CodecGen -------------------------------
(* Streams to write and read back: objects, and where the stream ends. *)
EXTENDS Naturals, Sequences, TLC, Json
VARIABLES ids, cut
vars == <<ids, cut>>
Init == ids = <<>> /\ cut = 0
Add == /\ cut = 0 /\ Len(ids) < 4 /\ \E i \in 1..12 : ids' = Append(ids, i)
       /\ UNCHANGED cut
Close == /\ cut = 0 /\ ids # <<>> /\ \E c \in {1000, 1000, 999, 990, 900, 777, 500, 333, 120, 20} : cut' = c
         /\ UNCHANGED ids
Next == Add \/ Close
Spec == Init /\ [][Next]_vars
Emit == cut > 0 => PrintT("@INST@" \o ToJson([ids |-> ids, cut |-> cut]))
==============================================================================
