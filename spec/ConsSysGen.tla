----------------------------- MODULE ConsSysGen ------------------------------
(* Random histories of constraint-system calls.                                *)
EXTENDS ConsSys, TLC, Json, IOUtils
LEN == 40
Names == {"a", "b", "c", "d", "e", "x0", "x1", "ONE", "a b", ""}
VARIABLES st, hist, last
vars == <<st, hist, last>>
Init == st = Fresh /\ hist = <<>> /\ last = "ok"
Free == {m \in Names : ~Taken(st, Path(st, m))}
Name == LET r == RandomElement(1..200) IN
        IF r = 1 THEN RandomElement(Slashed) ELSE IF r = 2 \/ Free = {} THEN RandomElement(Names) ELSE RandomElement(Free)
AllVars == {<<"i", i - 1>> : i \in 1..Len(st.inp)} \cup {<<"a", i - 1>> : i \in 1..Len(st.aux)}
Term == LET x == RandomElement(AllVars) IN <<x[1], x[2], RandomElement({1, 2, 96, 5})>>
Lc == [i \in 1..RandomElement(0..3) |-> Term]
VarPaths == {o.p : o \in {q \in st.objs : q.k \in {"i", "a"}}}
PathArg == IF RandomElement(1..60) = 1 THEN RandomElement({o.p : o \in st.objs} \cup {<<"nope">>, <<"a", "b", "c", "d">>}) ELSE RandomElement(VarPaths)
Small == {0, 1, 2, 3, 96}
InputArg == LET i == RandomElement(1..Len(st.inp)) IN
  IF RandomElement(1..40) = 1 THEN [op |-> "get_input", i |-> RandomElement(0..Len(st.inp)), path |-> RandomElement(VarPaths)]
  ELSE [op |-> "get_input", i |-> i - 1, path |-> st.inp[i].p]
Truth(n) == [i \in 1..n |-> IF RandomElement(1..6) = 1 THEN RandomElement(Small) ELSE IF i < Len(st.inp) THEN st.inp[i + 1].v ELSE 0]
(* constraints that hold are made by closing over the value of a random product *)
Closed == LET a == TLCEval(Lc)  b == TLCEval(Lc) IN [a |-> a, b |-> b, c |-> <<<<"i", 0, ((Val(st, a) * Val(st, b)) % P)>>>>]
Draw(k) ==
  CASE k \in {"alloc", "input"} -> [op |-> k, name |-> Name, v |-> RandomElement(Small), err |-> RandomElement(1..15) = 1]
    [] k = "enforce" -> IF RandomElement(1..3) = 1 THEN [op |-> k, name |-> Name, a |-> Lc, b |-> Lc, c |-> Lc]
                        ELSE LET z == Closed IN [op |-> k, name |-> Name, a |-> z.a, b |-> z.b, c |-> z.c]
    [] k = "push" -> [op |-> k, name |-> Name]
    [] k = "set" -> [op |-> k, path |-> PathArg, v |-> RandomElement(Small)]
    [] k = "get" -> [op |-> k, path |-> PathArg]
    [] k = "get_input" -> InputArg
    [] k = "verify" -> [op |-> k, vals |-> Truth(IF RandomElement(1..40) = 1 THEN Len(st.inp) ELSE Len(st.inp) - 1)]
    [] OTHER -> [op |-> k]
Kinds == {"alloc", "input", "enforce", "push", "set", "get", "get_input", "verify", "ncons", "ninputs", "sat", "which", "print", "hash"}
         \cup (IF st.ns = <<>> THEN {} ELSE {"pop"})
Step ==
  /\ Len(hist) < LEN /\ last # "panic"
  /\ \E k \in {RandomElement(Kinds)} : \E e \in {TLCEval(Draw(k))} :
       LET x == IF k = "hash" THEN Done(st, R("hash", 0, <<>>)) ELSE Apply(st, e) IN st' = x.st /\ last' = x.r.t /\ hist' = Append(hist, e)
Emit == (Len(hist) = LEN \/ last = "panic") /\ hist # <<>> /\ PrintT("@INST@" \o ToJson([ops |-> hist])) /\ hist' = <<>> /\ last' = "panic" /\ UNCHANGED st
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars
Inv == Consistent(st)
==============================================================================
