------------------------------ MODULE CBMTTrace ------------------------------
EXTENDS CBMT, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>
\* one proof request; i = -1 stands for an index beyond 2^31
ProofOK(ls, p) ==
  LET n == Len(ls)  k == n - 1 + p.i IN
  IF p.i < 0 \/ p.i >= n THEN p.got = "none"
  ELSE p.got = "some" /\ p.index = k /\ p.lemmas = PathOf(ls, k) /\ p.root = RootOf(ls) /\ p.verify = 1 /\ p.direct = 1
TreeBad(e) ==
  LET ls == e.leaves IN
  IF e.res # "ok" THEN "panic"
  ELSE IF e.root1 # RootOf(ls) THEN "merkle_root"
  ELSE IF e.root2 # RootOf(ls) THEN "tree_root"
  ELSE IF Len(ls) > 0 /\ e.nodes # Nodes(ls) THEN "nodes"
  ELSE IF \E j \in 1..Len(e.proofs) : ~ProofOK(ls, e.proofs[j]) THEN "proof"
  ELSE "ok"
CheckBad(e) == IF \A j \in 1..Len(e.cs) : LET c == e.cs[j] IN c.got = (IF Accepts(c.index, c.lemmas, c.root, c.leaf) THEN "true" ELSE "false") THEN "ok" ELSE "verify"
IndexBad(e) == IF \A j \in 1..Len(e.xs) : LET x == e.xs[j].x IN \A t \in {1, 2} :
    LET r == e.xs[j].r[t] IN r.s = Sibling(x) /\ r.p = Parent(x) /\ (r.l = 1) = IsLeft(x) /\ (r.z = 1) = (x = 0) THEN "ok" ELSE "index"
Judge(e) == CASE e.ev = "tree" -> TreeBad(e) [] e.ev = "check" -> CheckBad(e) [] e.ev = "index" -> IndexBad(e)
Init == l = 1 /\ bad = <<>>
Step == /\ l <= Len(Trace)
        /\ \E j \in {TLCEval(Judge(Trace[l]))} : bad' = IF j = "ok" THEN bad ELSE Append(bad, <<l, j>>)
        /\ l' = l + 1
Spec == Init /\ [][Step]_vars
Report == (l = Len(Trace) + 1) => PrintT("@BAD@" \o ToJson([bad |-> bad, n |-> Len(Trace)]))
TypeOK == l \in 1..(Len(Trace) + 1)
==============================================================================
