------------------------------- MODULE SetupMC -------------------------------
(* Why relations matter.  Part "key": a commitment key of two or three         *)
(* elements, seen in several draws; somebody who does not know the coins can   *)
(* open a commitment in two ways exactly if the draws are dependent.  Part     *)
(* "inputs": a Groth16 proof about one public input becomes a proof about      *)
(* another by adding to C a fixed combination of what was published exactly    *)
(* if gamma and delta stand in a fixed relation or the inputs' elements were   *)
(* also published over delta.                                                  *)
EXTENDS Setup
P == 5
Q == 13
VARIABLES part, key, fam
vars == <<part, key, fam>>
Vec(n) == [1 .. n -> 0 .. (P - 1)]
Init == \/ part = "key" /\ fam = "" /\ key \in [1 .. 3 -> Vec(2)]
        \/ part = "key" /\ fam = "" /\ \E r1 \in {<<1, 0, 2>>, <<0, 1, 1>>, <<2, 3, 0>>}, r2 \in Vec(3), r3 \in Vec(3) : key = <<r1, r2, r3>>
        \/ part = "inputs" /\ key = <<>> /\ fam \in {"free", "equal", "twice", "inverse", "leak", "alpha1", "nodelta"}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* commit(v) = sum v_i key_i; openings u # v of one commitment, whatever the draw
Dot(u, r) == FoldLeft(LAMBDA s, i : (s + u[i] * r[i]) % P, 0, [i \in 1 .. Len(r) |-> i])
TwoWays == \E d \in Vec(Len(key[1])) : (\E i \in DOMAIN d : d[i] # 0) /\ \A k \in 1 .. Len(key) : Dot(d, key[k]) = 0
Binding == part = "key" => (TwoWays <=> ~Independent(key, P))

\* x * y = z, z public; domain of 4: two constraints' worth of rows and two inputs
C == [ni |-> 1, na |-> 2, cons |-> << [a |-> <<<<1, 0, 1>>>>, b |-> <<<<1, 1, 1>>>>, c |-> <<<<0, 1, 1>>>>] >>]
\* a sample of draws: a linear congruence over 1..Q-1
Coin(i, j) == 1 + ((i * i * 7 + i * j * 5 + j * j * 3 + i * i * j + i + j) % (Q - 1))
\* the secret outside the domain
T(i) == LET S == {t \in 2 .. (Q - 1) : Pow(t, 4, Q) # 1} IN CHOOSE t \in S : Cardinality({u \in S : u < t}) = (i * i + i) % Cardinality(S)
Draw(i) ==
  LET d == Coin(i, 1)
      g == CASE fam = "equal" -> d [] fam = "twice" -> (2 * d) % Q [] OTHER -> Coin(i, 2)
  IN [t |-> T(i), alpha |-> IF fam = "alpha1" THEN 1 ELSE Coin(i, 3), beta |-> Coin(i, 4), gamma |-> g,
      delta |-> CASE fam = "nodelta" -> 1 [] fam = "inverse" -> Inv(g, Q) [] OTHER -> d, g1 |-> Coin(i, 5)]
Elements(i) ==
  LET k == Draw(i)  L == Lag(4, 5, k.t, Q)
      a == Side(C, L, "a", Q)  b == Side(C, L, "b", Q)  c == Side(C, L, "c", Q)
      z == (Pow(k.t, 4, Q) + Q - 1) % Q
      abc(j) == (((k.beta * a[j]) % Q) + ((k.alpha * b[j]) % Q) + c[j]) % Q
      x(v) == (v * k.g1) % Q
      ov(v, w) == x((v * Inv(w, Q)) % Q)
  IN [pub |-> <<x(k.alpha), x(k.beta), x(k.delta)>> \o [j \in 1 .. 4 |-> x(a[j])] \o <<x(b[4])>>
              \o [j \in 1 .. 2 |-> ov(abc(j), k.gamma)] \o [j \in 1 .. 2 |-> ov(abc(2 + j), k.delta)]
              \o [j \in 1 .. 3 |-> ov((z * Pow(k.t, j - 1, Q)) % Q, k.delta)]
              \o (IF fam = "leak" THEN <<ov(abc(2), k.delta)>> ELSE <<>>),
      \* what moves the proof from z to z + 1
      shift |-> ov(abc(2), k.delta)]
Sample == 60
Forgeable == LET e == TLCEval([i \in 1 .. Sample |-> Elements(i)]) IN Spanned([i \in 1 .. Sample |-> e[i].pub], [i \in 1 .. Sample |-> e[i].shift], Q)
Shifting == part = "inputs" => (Forgeable <=> fam \in {"equal", "twice", "leak"})
==============================================================================
