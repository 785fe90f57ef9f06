------------------------------- MODULE ConsSys -------------------------------
(* The constraint system the gadgets are tested on: variables, constraints and *)
(* namespaces under unique paths.  A path is a sequence of names.              *)
EXTENDS Integers, Sequences
P == 97
(* kind: "i" input, "a" aux, "c" constraint, "n" namespace *)
Fresh == [ns |-> <<>>, objs |-> {[p |-> <<"ONE">>, k |-> "i", i |-> 0]}, inp |-> <<[v |-> 1, p |-> <<"ONE">>]>>, aux |-> <<>>, cons |-> <<>>]
Slashed == {"a/b", "/"}
Path(st, n) == Append(st.ns, n)
Taken(st, p) == \E o \in st.objs : o.p = p
Obj(st, p) == CHOOSE o \in st.objs : o.p = p
R(t, v, p) == [t |-> t, v |-> v, p |-> p]
Panic(st) == [st |-> st, r |-> R("panic", 0, <<>>)]
Done(st, r) == [st |-> st, r |-> r]

RECURSIVE Eval(_, _, _)
Eval(st, lc, n) ==
  IF n = 0 THEN 0
  ELSE (Eval(st, lc, n - 1) + lc[n][3] * (IF lc[n][1] = "i" THEN st.inp[lc[n][2] + 1].v ELSE st.aux[lc[n][2] + 1].v)) % P
Val(st, lc) == Eval(st, lc, Len(lc))
Holds(st, c) == (Val(st, c.a) * Val(st, c.b)) % P = Val(st, c.c)
Unsat(st) == {i \in 1..Len(st.cons) : ~Holds(st, st.cons[i])}
First(S) == CHOOSE i \in S : \A j \in S : i <= j

Put(st, p, k, i) == [st EXCEPT !.objs = @ \cup {[p |-> p, k |-> k, i |-> i]}]
Named(st, e, ok) == IF e.name \in Slashed \/ Taken(st, Path(st, e.name)) THEN Panic(st) ELSE ok
IsVar(st, p) == Taken(st, p) /\ Obj(st, p).k \in {"i", "a"}
Current(st, p) == LET o == Obj(st, p) IN IF o.k = "i" THEN st.inp[o.i + 1].v ELSE st.aux[o.i + 1].v

(* what pretty_print shows and hash commits to: per constraint its path and its three combinations, the   *)
(* terms merged per variable (inputs first), zero terms dropped                                             *)
RECURSIVE Sum(_, _, _)
Sum(lc, x, n) == IF n = 0 THEN 0 ELSE (Sum(lc, x, n - 1) + (IF lc[n][1] = x[1] /\ lc[n][2] = x[2] THEN lc[n][3] ELSE 0)) % P
AllOf(st) == [i \in 1..(Len(st.inp) + Len(st.aux)) |-> IF i <= Len(st.inp) THEN <<"i", i - 1>> ELSE <<"a", i - Len(st.inp) - 1>>]
Norm(st, lc) == SelectSeq([i \in 1..Len(AllOf(st)) |-> <<AllOf(st)[i][1], AllOf(st)[i][2], Sum(lc, AllOf(st)[i], Len(lc))>>], LAMBDA t : t[3] # 0)
PathOf(st, t) == IF t[1] = "i" THEN st.inp[t[2] + 1].p ELSE st.aux[t[2] + 1].p
Shown(st) == [i \in 1..Len(st.cons) |->
  LET show(lc) == LET m == Norm(st, lc) IN [j \in 1..Len(m) |-> [v |-> PathOf(st, m[j]), c |-> m[j][3]]]
  IN [p |-> st.cons[i].p, a |-> show(st.cons[i].a), b |-> show(st.cons[i].b), c |-> show(st.cons[i].c)]]
Committed(st) == <<Len(st.inp), Len(st.aux), [i \in 1..Len(st.cons) |-> <<Norm(st, st.cons[i].a), Norm(st, st.cons[i].b), Norm(st, st.cons[i].c)>>]>>

Apply(st, e) ==
  LET p == IF e.op \in {"alloc", "input", "enforce", "push"} THEN Path(st, e.name) ELSE <<>> IN
  CASE e.op = "alloc" /\ e.err -> IF e.name \in Slashed THEN Panic(st) ELSE Done(st, R("err", 0, <<>>))
    [] e.op = "input" /\ e.err -> IF e.name \in Slashed THEN Panic(st) ELSE Done(st, R("err", 0, <<>>))
    [] e.op = "alloc" -> Named(st, e, Done([Put(st, p, "a", Len(st.aux)) EXCEPT !.aux = Append(@, [v |-> e.v, p |-> p])], R("aux", Len(st.aux), <<>>)))
    [] e.op = "input" -> Named(st, e, Done([Put(st, p, "i", Len(st.inp)) EXCEPT !.inp = Append(@, [v |-> e.v, p |-> p])], R("inp", Len(st.inp), <<>>)))
    [] e.op = "enforce" -> Named(st, e, Done([Put(st, p, "c", Len(st.cons)) EXCEPT !.cons = Append(@, [a |-> e.a, b |-> e.b, c |-> e.c, p |-> p])], R("unit", 0, <<>>)))
    [] e.op = "push" -> Named(st, e, Done([Put(st, p, "n", 0) EXCEPT !.ns = Append(@, e.name)], R("unit", 0, <<>>)))
    [] e.op = "pop" -> IF st.ns = <<>> THEN Panic(st) ELSE Done([st EXCEPT !.ns = SubSeq(@, 1, Len(@) - 1)], R("unit", 0, <<>>))
    [] e.op = "set" -> IF ~IsVar(st, e.path) THEN Panic(st)
                       ELSE LET o == Obj(st, e.path) IN
                            Done(IF o.k = "i" THEN [st EXCEPT !.inp[o.i + 1].v = e.v] ELSE [st EXCEPT !.aux[o.i + 1].v = e.v], R("unit", 0, <<>>))
    [] e.op = "get" -> IF ~IsVar(st, e.path) THEN Panic(st) ELSE Done(st, R("val", Current(st, e.path), <<>>))
    [] e.op = "ncons" -> Done(st, R("val", Len(st.cons), <<>>))
    [] e.op = "ninputs" -> Done(st, R("val", Len(st.inp), <<>>))
    [] e.op = "get_input" -> IF e.i >= Len(st.inp) \/ (e.i < Len(st.inp) /\ st.inp[e.i + 1].p # e.path) THEN Panic(st)
                             ELSE Done(st, R("val", st.inp[e.i + 1].v, <<>>))
    [] e.op = "sat" -> Done(st, R("val", IF Unsat(st) = {} THEN 1 ELSE 0, <<>>))
    [] e.op = "which" -> IF Unsat(st) = {} THEN Done(st, R("none", 0, <<>>)) ELSE Done(st, R("path", 0, st.cons[First(Unsat(st))].p))
    [] e.op = "print" -> Done(st, R("shown", 0, Shown(st)))
    [] e.op = "verify" -> IF Len(e.vals) + 1 # Len(st.inp) THEN Panic(st)
                          ELSE Done(st, R("val", IF \A i \in 1..Len(e.vals) : st.inp[i + 1].v = e.vals[i] THEN 1 ELSE 0, <<>>))

(* the named objects are exactly the recorded variables and constraints, each under one path *)
Consistent(st) ==
  /\ \A o, q \in st.objs : o.p = q.p => o = q
  /\ \A i \in 1..Len(st.inp) : [p |-> st.inp[i].p, k |-> "i", i |-> i - 1] \in st.objs
  /\ \A i \in 1..Len(st.aux) : [p |-> st.aux[i].p, k |-> "a", i |-> i - 1] \in st.objs
  /\ \A i \in 1..Len(st.cons) : [p |-> st.cons[i].p, k |-> "c", i |-> i - 1] \in st.objs
  /\ \A o \in st.objs : o.k = "i" => o.i < Len(st.inp)
  /\ \A o \in st.objs : o.k = "a" => o.i < Len(st.aux)
  /\ \A o \in st.objs : o.k = "c" => o.i < Len(st.cons)
  (* the namespaces on the stack were entered *)
  /\ \A d \in 1..Len(st.ns) : [p |-> SubSeq(st.ns, 1, d), k |-> "n", i |-> 0] \in st.objs
==============================================================================
