------------------------------ MODULE MarlinSim ------------------------------
(* The Marlin verifier as a transition system over the prover's messages:     *)
(* three rounds of committed oracles, their claimed evaluations at beta and   *)
(* gamma, the two sum-check identities and the two batched KZG openings with  *)
(* the degree bounds of g_1 and g_2 enforced by shifted commitments.          *)
EXTENDS Sim
Mod(x) == ((x % P) + P) % P
RECURSIVE NextPow2(_, _)
NextPow2(x, c) == IF c >= x THEN c ELSE NextPow2(x, 2 * c)
Size(x) == NextPow2(x, 1)
H == Size(I.constraints)
K == Size(I.nonzeros)
Van(size, x) == Mod(Pow(x, size, P) - 1)
\* the public input, extended by zeros, as a polynomial over the subgroup of its size
Xs == <<1>> \o [i \in 1 .. Len(I.x) |-> Mod(I.x[i])]
RECURSIVE Lagrange(_, _, _, _, _)
Lagrange(s, i, w, om, at) == IF i > Len(s) THEN 0
  ELSE (((((s[i] * w) % P) * Inv(Mod(at - w), P)) % P) + Lagrange(s, i + 1, (w * om) % P, om, at)) % P
XAt(b) == LET c == Size(Len(Xs)) om == Pow(I.root, (2 ^ I.adicity) \div c, P)
          IN (((Van(c, b) * Inv(c % P, P)) % P) * Lagrange(Xs, 1, 1, om, b)) % P
Bound == [l \in {"g_1", "g_2"} |-> IF l = "g_1" THEN H - 2 ELSE K - 2]
Index == <<"a_row", "a_col", "a_val", "a_row_col", "b_row", "b_col", "b_val", "b_row_col", "c_row", "c_col", "c_val", "c_row_col">>
First == <<"w", "z_a", "z_b", "mask">>
AtBeta == <<"g_1", "h_1", "mask", "t", "w", "z_a", "z_b">>
AtGamma == <<"a_col", "a_row", "a_row_col", "a_val", "b_col", "b_row", "b_row_col", "b_val", "c_col", "c_row", "c_row_col", "c_val", "g_2", "h_2">>
\* evaluations in the order of their names
Sorted == SubSeq(AtGamma, 1, 12) \o <<"g_1", "g_2", "h_1", "h_2", "mask", "t", "w", "z_a", "z_b">>
IndexOf(l) == CHOOSE i \in 1 .. 12 : Index[i] = l
Start == /\ pc = "start"
         /\ Go("second", [i \in 1 .. 12 |-> <<Index[i], I.index[i]>>] \o [i \in 1 .. 4 |-> <<First[i], Free(i)>>]
                         \o << <<"alpha", Coin(1)>>, <<"eta", <<Coin(2), Coin(3), Coin(4)>> >> >>,
               << <<"first", [i \in 1 .. 4 |-> Free(i)]>> >>, 4, 4, 0)
Second == /\ pc = "second"
          /\ Go("third", << <<"t", Free(1)>>, <<"g_1", Free(2)>>, <<"g_1s", Free(3)>>, <<"h_1", Free(4)>>, <<"beta", Coin(1)>> >>,
                << <<"second", [i \in 1 .. 4 |-> Free(i)]>> >>, 1, 4, 0)
Third == /\ pc = "third"
         /\ Go("evals", << <<"g_2", Free(1)>>, <<"g_2s", Free(2)>>, <<"h_2", Free(3)>>, <<"gamma", Coin(1)>> >>,
               << <<"third", [i \in 1 .. 3 |-> Free(i)]>> >>, 1, 3, 0)
Good == v.beta # v.gamma /\ v.alpha # v.beta /\ Van(H, v.alpha) # 0 /\ Van(H, v.beta) # 0 /\ Van(K, v.gamma) # 0
        /\ Van(Size(Len(Xs)), v.beta) # 0 /\ I.beta_h # (I.h * v.beta) % P /\ I.beta_h # (I.h * v.gamma) % P
Evals ==
  /\ pc = "evals" /\ Good
  /\ LET free == [l \in {Sorted[i] : i \in 1 .. 21} |-> Free(CHOOSE i \in 1 .. 21 : Sorted[i] = l)]
         a == v.alpha b == v.beta
         vha == Van(H, a) vhb == Van(H, b)
         rab == (Mod(vha - vhb) * Inv(Mod(a - b), P)) % P
         ab == (free.z_a * free.z_b) % P
         comb == (v.eta[1] * free.z_a + v.eta[2] * free.z_b + v.eta[3] * ab) % P
         z == (Van(Size(Len(Xs)), b) * free.w + XAt(b)) % P
         right == (free.h_1 * vhb + b * free.g_1) % P
         mask == Det(1, Mod(right + free.t * z - rab * comb))
         den(M) == Mod(((a * b) % P) - ((a * free[M \o "_row"]) % P) - ((b * free[M \o "_col"]) % P) + free[M \o "_row_col"])
         da == den("a") db == den("b") dc == den("c")
         m3(x, y, w) == (((x * y) % P) * w) % P
         sum == (m3((v.eta[1] * free.a_val) % P, db, dc) + m3((v.eta[2] * free.b_val) % P, dc, da) + m3((v.eta[3] * free.c_val) % P, da, db)) % P
         num == m3(sum, vha, vhb)
         g2 == (v.gamma * free.g_2 + free.t * Inv(K % P, P)) % P
         h2 == Det(2, (Mod(num - m3(da, db, dc) * g2) * Inv(Van(K, v.gamma), P)) % P)
         ev == [free EXCEPT !.mask = mask, !.h_2 = h2]
     IN Go("open", << <<"ev", ev>> >>, << <<"evals", [i \in 1 .. 21 |-> ev[Sorted[i]]]>> >>, 0, 21, 2)
\* commitments and values at one point, combined by the powers of the opening challenge
RECURSIVE Combine(_, _, _, _)
Combine(ls, point, xi, ch) ==
  IF ls = <<>> THEN <<0, 0>>
  ELSE LET l == ls[1] b == l \in {"g_1", "g_2"}
           rest == TLCEval(Combine(Tail(ls), point, xi, (((ch * xi) % P) * xi) % P))
           sch == (ch * xi) % P
           com == (v[l] * ch + (IF b THEN v[l \o "s"] * sch ELSE 0)) % P
           val == IF b THEN (v.ev[l] * ch + ((v.ev[l] * Pow(point, I.degree - Bound[l], P)) % P) * sch) % P ELSE (v.ev[l] * ch) % P
       IN <<(com + rest[1]) % P, (val + rest[2]) % P>>
\* the opening at the smaller point comes first
Opening(e, ls, point, xi, rv) ==
  LET c == Combine(ls, point, xi, 1)
      u == Mod(c[1] - ((I.g * c[2]) % P) - ((I.gamma_g * rv) % P))
  IN <<Det(e, (((u * I.h) % P) * Inv(Mod(I.beta_h - I.h * point), P)) % P), rv>>
Open ==
  /\ pc = "open"
  /\ LET xi == Coin(1) swap == v.beta > v.gamma
         b == Opening(IF swap THEN 2 ELSE 1, AtBeta, v.beta, xi, Free(1))
         g == Opening(IF swap THEN 1 ELSE 2, AtGamma, v.gamma, xi, Free(2))
     IN Go("done", <<>>, << <<"open", IF swap THEN g \o b ELSE b \o g>> >>, 1, 2, 2)
Init == SimInit("start")
Next == Start \/ Second \/ Third \/ Evals \/ Open
Spec == Init /\ [][Next]_simvars
Report == Emit(pf.first \o pf.second \o pf.third \o pf.evals \o pf.open)
TypeOK == n <= MaxEq
===============================================================================
