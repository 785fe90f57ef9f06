----------------------------- MODULE ConsSysMC -------------------------------
(* Exhaustive exploration of short histories.                                  *)
EXTENDS ConsSys, TLC
Names == {"a", "b"}
LEN == 6
VARIABLES st, n, last
vars == <<st, n, last>>
Init == st = Fresh /\ n = 0 /\ last = "ok"
Vars == {<<"i", i - 1>> : i \in 1..Len(st.inp)} \cup {<<"a", i - 1>> : i \in 1..Len(st.aux)}
Paths == {o.p : o \in st.objs}
Do(e) == LET x == Apply(st, e) IN st' = x.st /\ last' = x.r.t /\ n' = n + 1
Next ==
  /\ n < LEN /\ last # "panic"
  /\ \/ \E k \in {"alloc", "input"}, m \in Names, v \in {0, 2} : Do([op |-> k, name |-> m, v |-> v, err |-> FALSE])
     \/ \E m \in Names : Do([op |-> "push", name |-> m])
     \/ Do([op |-> "pop"])
     \/ \E m \in Names, x \in Vars : Do([op |-> "enforce", name |-> m, a |-> <<<<x[1], x[2], 1>>>>, b |-> <<<<"i", 0, 1>>>>, c |-> <<<<"i", 0, 2>>>>])
     \/ \E p \in Paths : Do([op |-> "set", path |-> p, v |-> 2])
     \/ Do([op |-> "which"])
Spec == Init /\ [][Next]_vars
Inv == Consistent(st)
(* a panic changes nothing that was recorded; names are never overwritten *)
Kept == [][ (last' = "panic" => st' = st) /\ st.objs \subseteq st'.objs /\ Len(st'.cons) >= Len(st.cons) ]_vars
FirstUnsat == LET r == Apply(st, [op |-> "which"]).r IN
  IF r.t = "none" THEN \A i \in 1..Len(st.cons) : Holds(st, st.cons[i])
  ELSE \E i \in 1..Len(st.cons) : st.cons[i].p = r.p /\ ~Holds(st, st.cons[i]) /\ \A j \in 1..(i - 1) : Holds(st, st.cons[j])
==============================================================================
