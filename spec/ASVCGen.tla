------------------------------- MODULE ASVCGen -------------------------------
(* Histories of the vector commitment: commit, open, update, aggregate, verify *)
(* with right and wrong claims.  The model keeps the vector and which proofs   *)
(* the user holds; the other values are the implementation's.                  *)
EXTENDS FpArith, TLC, Json, IOUtils, FiniteSets
VARIABLES p, n, n0, vec, held, last, ops
vars == <<p, n, n0, vec, held, last, ops>>
R(S) == RandomElement(S)
Pow2Up(k) == CHOOSE m \in {1, 2, 4, 8, 16} : m >= k /\ (m = 1 \/ m \div 2 < k)
Val(q) == IF R(1..3) = 1 THEN R({0, 1, q - 1}) ELSE R(0..(q - 1))
Init == /\ \E k \in {1, 2, 3, 4, 5, 6, 7, 8, 11, 16} : n0 = k /\ n = Pow2Up(k)
        /\ p \in {97, 7681, 12289} /\ vec = <<>> /\ held = {} /\ last = <<>> /\ ops = <<>>
Do(o) == ops' = Append(ops, o)
Pos == 0..(n - 1)
\* a sequence of distinct positions taken from S, in random order
RECURSIVE Shuffle(_, _)
Shuffle(S, k) == IF k = 0 \/ S = {} THEN <<>> ELSE LET x == R(S) IN <<x>> \o Shuffle(S \ {x}, k - 1)
ValueAt(i) == IF i < Len(vec) THEN vec[i + 1] ELSE 0
Commit == \E m \in {TLCEval(R(IF R(1..3) = 1 THEN 1..n ELSE {n}))} : \E v \in {TLCEval([i \in 1..m |-> Val(p)])} :
  /\ vec' = v /\ held' = {} /\ last' = <<>>
  /\ Do([op |-> "commit", v |-> v])
Track == \E i \in {R(Pos)} : /\ held' = held \cup {i} /\ Do([op |-> "track", i |-> i]) /\ UNCHANGED <<vec, last>>
Prove == \E s \in {TLCEval(Shuffle(Pos, R(1..n)))} : last' = s /\ Do([op |-> "prove", pts |-> s]) /\ UNCHANGED <<vec, held>>
Update == \E i \in {R(IF held # {} /\ R(1..2) = 1 THEN held ELSE Pos)} : \E d \in {Val(p)} :
  /\ vec' = [j \in 1..(IF i < Len(vec) THEN Len(vec) ELSE i + 1) |-> IF j = i + 1 THEN (ValueAt(i) + d) % p ELSE ValueAt(j - 1)]
  /\ last' = <<>> /\ Do([op |-> "upd", i |-> i, d |-> d]) /\ UNCHANGED held
Agg == held # {} /\ \E s \in {TLCEval(Shuffle(held, R(1..Cardinality(held))))} : last' = s /\ Do([op |-> "agg", pts |-> s]) /\ UNCHANGED <<vec, held>>
Alt == {"none", "none", "none", "value", "value", "pos", "commit", "proof", "short", "long", "beyond", "swap", "stale"}
Verify == last # <<>> /\ \E a \in {R({"none", "value", "pos", "commit", "proof", "short", "long", "beyond", "swap"})} :
  \E k \in {R(1..Len(last))} : \E e \in {R(1..(p - 1))} :
  LET v == [j \in 1..Len(last) |-> ValueAt(last[j])]
      b == [op |-> "verify", pts |-> last, vals |-> v, dc |-> 0, dw |-> 0, alter |-> a]
      x == R(Pos)
  IN /\ Do(CASE a = "value" -> [b EXCEPT !.vals[k] = (@ + e) % p]
             [] a = "pos" -> [b EXCEPT !.pts[k] = x]
             [] a = "commit" -> [b EXCEPT !.dc = e]
             [] a = "proof" -> [b EXCEPT !.dw = e]
             [] a = "short" -> [b EXCEPT !.vals = SubSeq(v, 1, Len(v) - 1)]
             [] a = "long" -> [b EXCEPT !.vals = Append(v, IF e % 2 = 0 THEN 0 ELSE e)]
             [] a = "beyond" -> [b EXCEPT !.pts[k] = @ + n * (1 + (e % 3))]
             [] a = "swap" -> [b EXCEPT !.vals = [j \in 1..Len(v) |-> v[Len(v) + 1 - j]]]
             [] OTHER -> b)
     /\ UNCHANGED <<vec, held, last>>
Upk == \E i \in {R(Pos)}, k \in {R(1..4)}, e \in {R(1..(p - 1))}, x \in {R(Pos)} :
  /\ Do([op |-> "upk", i |-> IF k = 2 THEN x ELSE i, j |-> i, da |-> IF k = 3 THEN e ELSE 0, du |-> IF k = 4 THEN e ELSE 0])
  /\ UNCHANGED <<vec, held, last>>
Next == /\ Len(ops) < 16 /\ UNCHANGED <<p, n, n0>>
        /\ IF vec = <<>> THEN Commit
           ELSE (Track \/ Track \/ Update \/ Update \/ Update \/ Agg \/ Agg \/ Verify \/ Verify \/ Verify \/ Prove \/ Upk \/ (R(1..8) = 1 /\ Commit))
Spec == Init /\ [][Next]_vars
Emit == Len(ops) = 16 => PrintT("@INST@" \o ToJson([p |-> p, n0 |-> n0, ops |-> ops]))
==============================================================================
