---------------------------- MODULE ConsSysTwins -----------------------------
(* Near neighbours: small constraint systems that differ in one variable, one  *)
(* coefficient, the order of operands or rows, or a count.  Their hashes have   *)
(* to be different exactly where what they commit to is.                        *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLE done
One(s, i) == <<<<s, i, 1>>>>
Opt == {<<>>, One("i", 0), One("i", 1), One("a", 0), One("a", 1), <<<<"a", 0, 2>>>>, <<<<"a", 0, 96>>>>,
        <<<<"a", 0, 1>>, <<"a", 1, 1>>>>, <<<<"a", 1, 1>>, <<"a", 0, 1>>>>, <<<<"a", 0, 1>>, <<"a", 0, 1>>>>,
        <<<<"a", 0, 1>>, <<"a", 0, 96>>>>, <<<<"a", 0, 1>>, <<"i", 0, 1>>>>}
Alloc(k, n, pre) == [i \in 1..n |-> [op |-> k, name |-> pre \o ToString(i), v |-> 0, err |-> FALSE]]
Row(n, a, b, c) == [op |-> "enforce", name |-> "r" \o ToString(n), a |-> a, b |-> b, c |-> c]
System(ni, na, rows) == Alloc("input", ni, "x") \o Alloc("alloc", na, "w") \o rows \o <<[op |-> "hash"]>>
All ==
  {System(1, 2, <<Row(1, a, b, c)>>) : a \in Opt, b \in {<<>>, One("i", 1), One("a", 1)}, c \in Opt}
  \cup {System(1, 2, <<Row(1, a, b, <<>>), Row(2, b, a, <<>>)>>) : a \in Opt, b \in Opt}
  \cup {System(ni, na, [i \in 1..r |-> Row(i, <<>>, <<>>, <<>>)]) : ni \in 0..2, na \in 0..2, r \in 0..3}
Init == done = FALSE
Next == done = FALSE /\ done' = TRUE /\ \A s \in All : PrintT("@INST@" \o ToJson([ops |-> s]))
Spec == Init /\ [][Next]_done
==============================================================================
