----------------------------- MODULE MarlinPCGen -----------------------------
(* Histories of trim, commit, open, check, batch open and batch check with     *)
(* right and wrong claims.                                                     *)
EXTENDS FpArith, TLC, Json, IOUtils, FiniteSets
VARIABLES p, md, sd, polys, opened, bopened, ops
vars == <<p, md, sd, polys, opened, bopened, ops>>
R(S) == RandomElement(S)
Val(q) == IF R(1..3) = 1 THEN R({0, 1, q - 1}) ELSE R(0..(q - 1))
Init == /\ md \in {1, 2, 3, 5, 8} /\ sd = 0 /\ p \in {97, 7681, 12289}
        /\ polys = <<>> /\ opened = <<>> /\ bopened = {} /\ ops = <<>>
Do(o) == ops' = Append(ops, o)
RECURSIVE SetToSeqQ(_)
SetToSeqQ(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeqQ(S \ {x})
Trim == \E d \in {R(IF R(1..6) = 1 THEN {md + 1, 0} ELSE 1..md)} :
  /\ Do([op |-> "trim", sd |-> d]) /\ sd' = IF d <= md THEN d ELSE sd
  /\ polys' = <<>> /\ opened' = <<>> /\ bopened' = {}
\* a polynomial with its bounds; most are legal, some break one rule
Poly(i) ==
  LET deg == R(IF R(1..12) = 1 THEN {sd + 1} ELSE 0..sd)
      zero == R(1..10) = 1
      low == R(0..deg)
      c == TLCEval([k \in 1..(deg + 1) |-> IF zero THEN 0 ELSE IF k <= low /\ R(1..2) = 1 THEN 0 ELSE IF k = deg + 1 THEN R(1..(p - 1)) ELSE Val(p)])
      hi == IF deg > sd THEN sd ELSE deg
      b == R(IF R(1..2) = 1 THEN {0 - 1} ELSE IF R(1..12) = 1 THEN 0..(sd + 1) ELSE hi..sd)
      h == R(IF R(1..3) = 1 THEN {0 - 1} ELSE IF R(1..15) = 1 THEN {0, sd + 1} ELSE 1..sd)
  IN [id |-> i, c |-> c, b |-> b, h |-> h]
Deg(c) == LET nz == {i \in 1..Len(c) : c[i] # 0} IN IF nz = {} THEN 0 ELSE (CHOOSE i \in nz : \A j \in nz : j <= i) - 1
Legal(f) == Deg(f.c) <= sd /\ f.h # 0 /\ f.h <= sd /\ f.b <= sd /\ (f.b >= 0 => Deg(f.c) <= f.b)
RECURSIVE Shuffle(_, _)
Shuffle(S, k) == IF k = 0 \/ S = {} THEN <<>> ELSE LET x == R(S) IN <<x>> \o Shuffle(S \ {x}, k - 1)
Commit == \E n \in {R(1..4)} : \E ids \in {TLCEval(Shuffle(0..6, n))} : \E fs \in {TLCEval([i \in 1..Len(ids) |-> Poly(ids[i])])} : \E g \in {R(1..8)} :
  /\ Do([op |-> "commit", fs |-> fs, rng |-> IF g = 1 THEN 0 ELSE 1])
  /\ polys' = IF \A i \in 1..Len(fs) : Legal(fs[i]) /\ (g = 1 => fs[i].h < 0) THEN fs ELSE polys
  /\ (\A i \in 1..Len(fs) : Legal(fs[i]) /\ (g = 1 => fs[i].h < 0)) => opened' = <<>> /\ bopened' = {}
  /\ ~(\A i \in 1..Len(fs) : Legal(fs[i]) /\ (g = 1 => fs[i].h < 0)) => UNCHANGED <<opened, bopened>>
  /\ UNCHANGED sd
Open == polys # <<>> /\ \E s \in {TLCEval(Shuffle(1..Len(polys), R(1..Len(polys))))} : \E z \in {Val(p)}, x \in {Val(p)} :
  /\ Do([op |-> "open", sel |-> s, z |-> z, xi |-> x]) /\ opened' = s /\ UNCHANGED <<sd, polys, bopened>>
Alts == {"none", "value", "zero", "point", "comm", "shift", "bound", "dropshift", "dropbound", "w", "rv", "norv", "xi", "swap"}
Check == opened # <<>> /\ \E a \in {R(Alts)} : \E k \in {R(1..Len(opened))} : \E e \in {R(1..(p - 1))} : \E d \in {R(0..(sd + 1))} :
  /\ Do([op |-> "check", alter |-> a, k |-> k, e |-> e, d |-> d]) /\ UNCHANGED <<sd, polys, opened, bopened>>
BOpen == polys # <<>> /\ \E zs \in {TLCEval([i \in 1..R(1..3) |-> Val(p)])} :
  \E q \in {TLCEval({<<i, j>> \in (1..Len(polys)) \X (1..Len(zs)) : R(1..3) # 1})} : \E x \in {Val(p)} :
  q # {} /\ LET qs == SetToSeqQ(q) IN
  /\ Do([op |-> "bopen", qs |-> [i \in 1..Len(qs) |-> [k |-> qs[i][1], z |-> zs[qs[i][2]]]], xi |-> x])
  /\ bopened' = {<<t[1], zs[t[2]]>> : t \in q} /\ UNCHANGED <<sd, polys, opened>>
BAlts == {"none", "value", "swapproofs", "w", "rv", "comm", "point", "missing", "nocomm", "lessproofs", "moreproofs", "xi", "swapvalues"}
BCheck == bopened # {} /\ \E a \in {R(BAlts)} : \E k \in {R(0..20)} : \E e \in {R(1..(p - 1))} :
  /\ Do([op |-> "bcheck", alter |-> a, k |-> k, e |-> e]) /\ UNCHANGED <<sd, polys, opened, bopened>>
Next == /\ Len(ops) < 14 /\ UNCHANGED <<p, md>>
        /\ IF sd = 0 THEN Trim
           ELSE IF polys = <<>> THEN Commit
           ELSE Open \/ Check \/ Check \/ Check \/ BOpen \/ BCheck \/ BCheck \/ BCheck \/ (R(1..4) = 1 /\ Commit) \/ (R(1..10) = 1 /\ Trim)
Spec == Init /\ [][Next]_vars
Emit == Len(ops) = 14 => PrintT("@INST@" \o ToJson([p |-> p, md |-> md, ops |-> ops]))
==============================================================================
