------------------------------ MODULE SetMember ------------------------------
(* Membership circuits over complete binary Merkle trees, for any compressing  *)
(* hash.  Two hashes: a free one (CBMT's symbolic terms; stands for SHA-256,   *)
(* MiMC, Poseidon, Rescue) and a small algebraic one on vectors of field       *)
(* elements, for which the recorded constraint system is solved completely.    *)
EXTENDS CBMT, Rank1
RECURSIVE Lin(_, _, _, _, _)
Lin(c, a, j, p, i) == IF i > Len(c) THEN 0 ELSE (c[i] * (a * i + j) + Lin(c, a, j, p, i + 1)) % p
(* element j of the small hash of l and r, w elements long *)
Toy(l, r, w, p) == LET c == l \o r IN [j \in 1..w |-> ((Lin(c, 1, j, p, 1) + 1) * (Lin(c, 2, j, p, 1) + 2)) % p]
RECURSIVE ToyFold(_, _, _, _, _, _)
ToyFold(k, lemmas, i, acc, w, p) == IF i > Len(lemmas) THEN acc
  ELSE ToyFold(Parent(k), lemmas, i + 1, IF IsLeft(k) THEN Toy(acc, lemmas[i], w, p) ELSE Toy(lemmas[i], acc, w, p), w, p)
At(ws, s) == [i \in 1..Len(ws) |-> s[ws[i] + 1]]
(* e: one recorded circuit of the small hash, e.leaf / e.root its wires, e.lemmas the lemmas' wires *)
ToyJudge(e) ==
  LET q == e.q  p == q.p
      want == ToyFold(q.index, q.lemmas, 1, q.leaf, q.w, p)
      fixed == [k \in {e.leaf[i] : i \in 1..Len(e.leaf)} \cup UNION {{e.lemmas[i][j] : j \in 1..Len(e.lemmas[i])} : i \in 1..Len(e.lemmas)} |-> e.v[k + 1]]
  IN
  IF Len(q.root) # Len(want)
  THEN IF e.rc # "ok" \/ ~AllHold(e.sys, e.v, p) THEN "ok" ELSE "root-length"
  ELSE IF e.rc # "ok" THEN "rc"
  ELSE IF e.shape # 1 THEN "shape"
  ELSE IF At(e.leaf, e.v) # q.leaf \/ At(e.root, e.v) # q.root \/ e.d # 0 THEN "wires"
  ELSE IF AllHold(e.sys, e.v, p) # (q.root = want) THEN "honest"
  ELSE IF q.full = 0 THEN "ok"
  ELSE LET S == Sols(e.sys, e.n, p, fixed) IN
       IF {At(e.root, s) : s \in S} = {want} THEN "ok" ELSE "sound"
(* one circuit of a real hash: satisfied exactly when the symbolic path leads to the symbolic root, *)
(* and no other choice of private wires turns the falsified statement into a satisfied one          *)
RealJudge(e) ==
  LET q == e.q  true == Accepts(q.index, q.lemmas, q.root, q.leaf) IN
  IF e.rc # "ok" THEN "rc"
  ELSE IF (e.native = 1) # true THEN "native"
  ELSE IF (e.sat = 1) # true THEN "satisfied"
  ELSE IF e.forged = 1 THEN "forged"
  \* a true statement with one element of it changed: the assignment must no longer satisfy the circuit
  ELSE IF e.loose # 0 THEN "loose"
  ELSE "ok"
==============================================================================
