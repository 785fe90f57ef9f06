-------------------------------- MODULE Setup --------------------------------
(* What parameter generation publishes.  The coins (toxic values) are drawn,   *)
(* published only inside group elements, and forgotten; a group element is     *)
(* its discrete logarithm, which nobody sees.  Who does not know the coins can *)
(* use only what holds whatever the coins are: a relation between published    *)
(* elements that holds for every draw.  Parameters of one kind are therefore   *)
(* seen as a matrix, a row for each draw, a column for each element.           *)
EXTENDS FpArith, FiniteSets, SequencesExt, TLC
RowOp(r, b, p) ==       \* clear r at the pivot of b
  LET c == r[b.at] IN IF c = 0 THEN r ELSE TLCEval([j \in 1 .. Len(r) |-> (r[j] + (p - c) * b.row[j]) % p])
Lead(r) == LET S == {j \in 1 .. Len(r) : r[j] # 0} IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : j <= k
Insert(B, r, p) ==
  LET q == TLCEval(FoldLeft(LAMBDA x, b : RowOp(x, b, p), r, B))
      j == Lead(q)
  IN IF j = 0 THEN B ELSE LET i == Inv(q[j], p) IN Append(B, [at |-> j, row |-> TLCEval([k \in 1 .. Len(q) |-> (q[k] * i) % p])])
\* row echelon form; its length is the rank
Basis(M, p) == FoldLeft(LAMBDA B, r : IF Len(B) = Len(r) THEN B ELSE TLCEval(Insert(B, r, p)), <<>>, M)
Rank(M, p) == Len(Basis(M, p))
\* no linear relation between the columns holds in every row
Independent(M, p) == Len(M) > 0 /\ Rank(M, p) = Len(M[1])
\* the column t is a fixed combination of the columns of M
Spanned(M, t, p) == Rank(M, p) = Rank([i \in 1 .. Len(M) |-> Append(M[i], t[i])], p)

\* all products of at most two coins
Monomials(c, p) == <<1>> \o c \o FoldLeft(LAMBDA s, i : s \o [j \in 1 .. (Len(c) + 1 - i) |-> (c[i] * c[i + j - 1]) % p], <<>>, [i \in 1 .. Len(c) |-> i])
\* no quadratic relation between the coins holds in every draw
Free(C, p) == Independent([i \in 1 .. Len(C) |-> Monomials(C[i], p)], p)

\* ----
(* Powers of a secret: g, b g, b^2 g, ...                                      *)
Powers(s, b, p) == \A i \in 1 .. (Len(s) - 1) : s[i + 1] = (s[i] * b) % p
Kzg(r, n, p) == LET b == Frac(r.bh, r.h, p) IN
  /\ Len(r.g) >= n + 1 /\ Powers(r.g, b, p)
  /\ Len(r.gg) >= n + 1 /\ Powers(r.gg, b, p)
  /\ r.g[1] # 0 /\ r.gg[1] # 0 /\ r.h # 0
KzgCoins(r, p) == <<Frac(r.bh, r.h, p), r.g[1], r.gg[1], r.h>>
Vector(r, n, p) == LET b == Frac(r.g[2], r.g[1], p) IN
  /\ Len(r.g) >= n + 1 /\ Powers(r.g, b, p) /\ r.vg = r.g
  /\ Len(r.h) >= n + 1 /\ Powers(r.h, b, p)
  /\ r.g[1] # 0 /\ r.h[1] # 0
VectorCoins(r, p) == <<Frac(r.g[2], r.g[1], p), r.g[1], r.h[1]>>

\* ----
(* Groth16: the quadratic arithmetic program of a circuit at the secret t.     *)
(* One row for every constraint, and one for every input (ONE included) that   *)
(* makes the inputs' polynomials independent.                                  *)
RECURSIVE Up2(_, _)
Up2(n, m) == IF n >= m THEN n ELSE Up2(2 * n, m)
Domain(c) == Up2(1, Len(c.cons) + c.ni + 1)
\* Lagrange coefficients of the domain generated by om at t
Lag(n, om, t, p) == LET z == (Pow(t, n, p) + p - 1) % p  k == (z * Inv(n, p)) % p IN
  TLCEval([i \in 1 .. n |-> LET x == Pow(om, i - 1, p) IN (((k * x) % p) * Inv((t + p - x) % p, p)) % p])
Col(c, x) == IF x[1] = 0 THEN x[2] ELSE c.ni + 1 + x[2]     \* from 0
Mod(v, p) == ((v % p) + p) % p
Coef(c, lc, j, p) == FoldLeft(LAMBDA s, x : IF Col(c, x) = j THEN (s + Mod(x[3], p)) % p ELSE s, 0, lc)
Cols(c) == c.ni + 1 + c.na
\* side "a", "b" or "c" of the program, a polynomial's value for every column
Side(c, L, side, p) ==
  TLCEval([j \in 1 .. Cols(c) |->
    FoldLeft(LAMBDA s, i : (s + L[i] * Coef(c, c.cons[i][side], j - 1, p)) % p,
             IF side = "a" /\ j <= c.ni + 1 THEN L[Len(c.cons) + j] ELSE 0, [i \in 1 .. Len(c.cons) |-> i])])
\* the coins, from what was published (a seen element a[j] with a nonzero polynomial gives g1)
Secret(r, p) == Frac(r.h[2], r.h[1], p)
Qap(c, r, om, p) == LET t == Secret(r, p)  L == Lag(Domain(c), om, t, p) IN
  [a |-> Side(c, L, "a", p), b |-> Side(c, L, "b", p), c |-> Side(c, L, "c", p), z |-> (Pow(t, Domain(c), p) + p - 1) % p, t |-> t]
Groth16Coins(r, q, p) ==
  LET j == CHOOSE j \in 1 .. Len(r.a) : q.a[j] # 0 /\ r.a[j] # 0
      g1 == Frac(r.a[j], q.a[j], p)
      delta == Frac(r.delta1, g1, p)
      g2 == Frac(r.delta2, delta, p)
  IN [t |-> q.t, g1 |-> g1, g2 |-> g2, alpha |-> Frac(r.alpha, g1, p), beta |-> Frac(r.beta1, g1, p), delta |-> delta, gamma |-> Frac(r.gamma, g2, p)]
Groth16(c, r, q, k, p) ==
  LET x(v) == (v * k.g1) % p
      abc(j) == (((k.beta * q.a[j]) % p) + ((k.alpha * q.b[j]) % p) + q.c[j]) % p
      ni == c.ni + 1
  IN /\ r.beta2 = (k.beta * k.g2) % p
     /\ Len(r.a) = Cols(c) /\ \A j \in 1 .. Cols(c) : r.a[j] = x(q.a[j])
     /\ Len(r.b1) = Cols(c) /\ \A j \in 1 .. Cols(c) : r.b1[j] = x(q.b[j])
     /\ Len(r.b2) = Cols(c) /\ \A j \in 1 .. Cols(c) : r.b2[j] = (q.b[j] * k.g2) % p
     /\ Len(r.abc) = ni /\ \A j \in 1 .. ni : (r.abc[j] * k.gamma) % p = x(abc(j))
     \* nothing of the inputs over delta
     /\ Len(r.l) = c.na /\ \A j \in 1 .. c.na : (r.l[j] * k.delta) % p = x(abc(ni + j))
     /\ Len(r.h) >= Domain(c) - 1
     /\ \A i \in 1 .. (Domain(c) - 1) : (r.h[i] * k.delta) % p = x((q.z * Pow(q.t, i - 1, p)) % p)
==============================================================================
