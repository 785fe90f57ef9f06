------------------------------ MODULE Blinding -------------------------------
(* Hiding of published values that are affine in the prover's randomness:    *)
(* with the verifier's coins fixed, the published words are                   *)
(*        C(w, d) = c(w) + J . d          over GF(p), d uniform.              *)
(* They are distributed independently of the witness exactly when every      *)
(* combination of rows that the randomness does not reach (lambda . J = 0)    *)
(* is one the witness does not reach either (lambda . (c(w') - c(w)) = 0).    *)
(* Leaks decides that by elimination; BlindingMC compares it, for all small   *)
(* matrices, with the distributions themselves.                              *)
EXTENDS FpArith, FiniteSets, TLC
\* a row: [j |-> derivative by each draw, d |-> difference by each witness]
Zero(s) == \A k \in DOMAIN s : s[k] = 0
Lead(s) == CHOOSE k \in DOMAIN s : s[k] # 0 /\ \A m \in 1 .. k - 1 : s[m] = 0
\* the rest of the rows after the head has been eliminated from them
Force(s) == IF s = s THEN s ELSE s
Reduce(row, piv, k, inv, p) ==
  IF row.j[k] = 0 THEN row
  ELSE LET f == (row.j[k] * inv) % p
       IN [j |-> Force([m \in DOMAIN row.j |-> IF m < k THEN row.j[m] ELSE (row.j[m] + (p - f) * piv.j[m]) % p]),
           d |-> Force([m \in DOMAIN row.d |-> (row.d[m] + (p - f) * piv.d[m]) % p])]
Rest(rows, p) ==
  LET piv == Head(rows)
      k == Lead(piv.j)
      inv == Inv(piv.j[k], p)
  IN Force([n \in 1 .. Len(rows) - 1 |-> Reduce(rows[n + 1], piv, k, inv, p)])
\* is the head a combination without randomness?
Bare(rows) == Zero(Head(rows).j)
LeaksHere(rows) == Bare(rows) /\ ~Zero(Head(rows).d)
Next(rows, p) == IF Bare(rows) THEN Tail(rows) ELSE Rest(rows, p)
RECURSIVE Leaks(_, _)
Leaks(rows, p) == rows # <<>> /\ (LeaksHere(rows) \/ Leaks(TLCEval(Next(rows, p)), p))
RECURSIVE Rank(_, _)
Rank(rows, p) == IF rows = <<>> THEN 0 ELSE (IF Bare(rows) THEN 0 ELSE 1) + Rank(TLCEval(Next(rows, p)), p)
==============================================================================
