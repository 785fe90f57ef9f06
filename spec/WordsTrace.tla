----------------------------- MODULE WordsTrace ------------------------------
(* Recorded word programs and hash circuits against Words; their constraint    *)
(* systems against BigRank1.                                                   *)
EXTENDS Words, BigRank1, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
CHUNK == 150
RECURSIVE Run(_, _, _, _)
(* pool of words after each operation; the inner sums of an "add" are kept apart *)
Word1(o, pool) ==
  LET A(i) == pool[o.a[i] + 1]
      G(g) == Add([i \in 1..Len(g) |-> pool[g[i] + 1]])
  IN CASE o.op \in {"alloc", "const"} -> Word(o.w)
       [] o.op = "bits" -> o.v
       [] o.op = "bitsbe" -> Flip(o.v)
       [] o.op \in {"le", "be"} -> A(1)
       [] o.op = "rev" -> Flip(A(1))
       [] o.op = "rotr" -> RotR(A(1), o.by % 32)
       [] o.op = "shr" -> ShR(A(1), o.by)
       [] o.op = "xor" -> XorW(A(1), A(2))
       [] o.op = "ch" -> Ch(A(1), A(2), A(3))
       [] o.op = "maj" -> Maj(A(1), A(2), A(3))
       [] o.op = "add" -> G(o.g[Len(o.g)])
Inner(o, pool) == IF o.op # "add" THEN <<>> ELSE [k \in 1..(Len(o.g) - 1) |-> Add([i \in 1..Len(o.g[k]) |-> pool[o.g[k][i] + 1]])]
Run(ops, i, pool, inner) == IF i > Len(ops) THEN <<pool, inner>> ELSE
  Run(ops, i + 1, TLCEval(Append(pool, TLCEval(Word1(ops[i], pool)))), TLCEval(inner \o Inner(ops[i], pool)))
Program(e) ==
  LET x == Run(e.q.ops, 1, <<>>, <<>>) IN
  /\ Len(e.outs) = Len(x[1])
  /\ \A i \in 1..Len(e.outs) : e.outs[i].bits = x[1][i] /\ e.outs[i].carried = x[1][i]
  /\ e.res = Concat(x[1] \o x[2])
Values(e) == CASE e.q.op = "program" -> Program(e)
               [] e.q.op = "sha256" -> e.res = Sha256(e.q.v)
               [] e.q.op = "shablock" -> e.res = ShaBlock(e.q.v)
               [] e.q.op = "blake2s" -> e.res = Blake2s(e.q.v, e.q.pers)
First(e) ==
  IF e.rc # "ok" THEN "rc"
  ELSE IF e.shape # 1 THEN "shape"
  ELSE IF e.sat # 1 THEN "unsatisfied"
  ELSE IF Values(e) # TRUE THEN "value"
  ELSE IF e.alt # <<>> THEN "second-assignment"
  ELSE "ok"
Least(a, b) == IF a < b THEN a ELSE b
(* phase 0: values; 1: every constraint on the honest assignment; 2: elimination wire by wire; 3: packed sums *)
VARIABLES l, ph, k, bad
vars == <<l, ph, k, bad>>
Init == l = 1 /\ ph = 0 /\ k = 1 /\ bad = <<>>
Done == l' = l + 1 /\ ph' = 0 /\ k' = 1
E == Trace[l]
RuleOK(e, w) ==
  LET r == e.rule[w + 1]  b == e.brule[w + 1] IN
  /\ CASE r[1] = "in" -> e.rank[w + 1] = 0
       [] r[1] = "free" -> e.rank[w + 1] = -1
       [] r[1] = "lin" -> LinOK(e.sys[r[2]], w, e.rank)
       [] r[1] = "dig" -> TRUE
  /\ CASE b[1] = "one" -> w = 0
       [] b[1] = "none" -> TRUE
       [] b[1] = "c" -> BoolOK(e.sys[b[2]], w)
       [] b[1] = "t" -> TableOK(e.sys, w, b, LAMBDA u : e.brule[u + 1][1] # "none" /\ e.brank[u + 1] < e.brank[w + 1])
RECURSIVE PackSize(_, _)
PackSize(P, i) == IF i > Len(P) THEN 0 ELSE Len(P[i]) - 1 + PackSize(P, i + 1)
PacksOK(e) == /\ Cardinality({w \in 1..Len(e.rule) : e.rule[w][1] = "dig"}) = PackSize(e.packs, 1)
              /\ Cardinality({e.packs[i][1] : i \in 1..Len(e.packs)}) = Len(e.packs)
PCHUNK == 6
Step ==
  /\ l <= Len(Trace)
  /\ \/ /\ ph = 0
        /\ \E j \in {TLCEval(First(E))} :
             /\ bad' = IF j = "ok" THEN bad ELSE Append(bad, <<l, j>>)
             /\ IF j = "ok" /\ E.q.full = 1 THEN ph' = 1 /\ k' = 1 /\ UNCHANGED l ELSE Done
     \/ /\ ph = 1
        /\ \E hi \in {Least(k + CHUNK - 1, Len(E.sys))} :
             IF \A i \in k..hi : HoldsBig(E.sys[i], E.v)
             THEN IF hi = Len(E.sys) THEN ph' = 2 /\ k' = 1 /\ UNCHANGED <<l, bad>> ELSE k' = hi + 1 /\ UNCHANGED <<l, ph, bad>>
             ELSE bad' = Append(bad, <<l, "unsatisfied">>) /\ Done
     \/ /\ ph = 2
        /\ \E hi \in {Least(k + CHUNK - 1, Len(E.rank) - 1)} :
             IF \A w \in k..hi : RuleOK(E, w)
             THEN IF hi >= Len(E.rank) - 1 THEN ph' = 3 /\ k' = 1 /\ UNCHANGED <<l, bad>> ELSE k' = hi + 1 /\ UNCHANGED <<l, ph, bad>>
             ELSE bad' = Append(bad, <<l, "hint">>) /\ Done
     \/ /\ ph = 3
        /\ \E hi \in {Least(k + PCHUNK - 1, Len(E.packs))} :
             IF (k > 1 \/ PacksOK(E)) /\ \A i \in k..hi : PackOK(E.sys[E.packs[i][1]], E.packs[i], E, E.bits - 1)
             THEN IF hi >= Len(E.packs) THEN Done /\ UNCHANGED bad ELSE k' = hi + 1 /\ UNCHANGED <<l, ph, bad>>
             ELSE bad' = Append(bad, <<l, "hint">>) /\ Done
Spec == Init /\ [][Step]_vars
Report == (l = Len(Trace) + 1) => PrintT("@BAD@" \o ToJson([bad |-> bad, n |-> Len(Trace)]))
TypeOK == l \in 1..(Len(Trace) + 1) /\ ph \in 0..3
==============================================================================
