------------------------------ MODULE PlonkSim -------------------------------
(* The PLONK verifier as a transition system over the prover's messages: the  *)
(* wires, the grand product, the quotient in four parts, the evaluations at   *)
(* zeta and zeta*g, the identity linking them, and the two batched openings   *)
(* of the linear combinations.  The commitments of the circuit are computed   *)
(* from its selectors and permutation, not taken from the key.                *)
EXTENDS Sim
Mod(x) == ((x % P) + P) % P
N == Len(I.polys[1][2])
Gen == Pow(I.root, (2 ^ I.adicity) \div N, P)
Van(x) == Mod(Pow(x, N, P) - 1)
\* value at `at`, outside the domain, of the polynomial with values s on the domain
RECURSIVE Lag(_, _, _, _)
Lag(s, i, w, at) == IF i > Len(s) THEN 0
  ELSE (((((s[i] * w) % P) * Inv(Mod(at - w), P)) % P) + Lag(s, i + 1, (w * Gen) % P, at)) % P
At(s, at) == (((Van(at) * Inv(N % P, P)) % P) * Lag(s, 1, 1, at)) % P
Tau == (I.beta_h * Inv(I.h, P)) % P
Oracles == <<"w_0", "w_1", "w_2", "w_3", "z", "t_0", "t_1", "t_2", "t_3">>
Sorted == <<"q_arith", "r", "sigma_0", "sigma_1", "sigma_2", "t", "w_0", "w_1", "w_2", "w_3", "z">>
\* commitments of the circuit
Start == /\ pc = "start" /\ Van(Tau) # 0
         /\ Go("wires", [i \in 1 .. Len(I.polys) |-> <<I.polys[i][1], (I.g * At(I.polys[i][2], Tau)) % P>>], <<>>, 0, 0, 0)
Wires == /\ pc = "wires"
         /\ Go("product", [i \in 1 .. 4 |-> <<Oracles[i], Free(i)>>] \o << <<"beta", Coin(1)>>, <<"gamma", Coin(2)>> >>,
               << <<"com", [i \in 1 .. 4 |-> Free(i)]>> >>, 2, 4, 0)
Grand == /\ pc = "product"
         /\ Go("quotient", << <<"z", Free(1)>>, <<"alpha", Coin(1)>> >>, << <<"com", <<Free(1)>> >> >>, 1, 1, 0)
Quotient == /\ pc = "quotient"
            /\ Go("evals", [i \in 1 .. 4 |-> <<Oracles[5 + i], Free(i)>>] \o << <<"zeta", Coin(1)>> >>,
                  << <<"com", [i \in 1 .. 4 |-> Free(i)]>> >>, 1, 4, 0)
L1 == (Van(v.zeta) * Inv(((N % P) * Mod(v.zeta - 1)) % P, P)) % P
Good == Van(v.zeta) # 0 /\ v.zeta # Tau /\ (v.zeta * Gen) % P # Tau /\ v.zeta # 0
M(x) == Prod(x, P)
W(ev, i) == ev["w_" \o ToString(i)]
Den(ev, i) == (W(ev, i) + v.beta * ev["sigma_" \o ToString(i)] + v.gamma) % P
Evals ==
  /\ pc = "evals" /\ Good
  /\ LET f == [l \in {Sorted[i] : i \in 1 .. 11} |-> Free(CHOOSE i \in 1 .. 11 : Sorted[i] = l)]
         pi == At([i \in 1 .. N |-> IF i <= Len(I.pi) THEN I.pi[i] ELSE 0], v.zeta)
         perm == M(<<f.z, Den(f, 0), Den(f, 1), Den(f, 2), (f.w_3 + v.gamma) % P, v.alpha>>)
         r == Det(1, Mod(((f.t * Van(v.zeta)) % P) - ((f.q_arith * pi) % P) + perm + M(<<L1, v.alpha, v.alpha>>)))
         ev == [f EXCEPT !.r = r]
     IN Go("open", << <<"ev", ev>> >>, << <<"evals", [i \in 1 .. 11 |-> ev[Sorted[i]]]>> >>, 0, 11, 1)
\* commitment to the linear combination named l
Com(l) ==
  LET ev == v.ev
      zn == Pow(v.zeta, N, P)
      bz == (v.beta * v.zeta) % P
      num == M([i \in 1 .. 4 |-> (W(ev, i - 1) + I.ks[i] * bz + v.gamma) % P])
      den == M(<<Den(ev, 0), Den(ev, 1), Den(ev, 2), v.beta, ev.z>>)
  IN CASE l = "t" -> (v.t_0 + M(<<zn, v.t_1>>) + M(<<zn, zn, v.t_2>>) + M(<<zn, zn, zn, v.t_3>>)) % P
       [] l = "r" -> LET arith == (ev.w_0 * v.q_0 + ev.w_1 * v.q_1 + ev.w_2 * v.q_2 + ev.w_3 * v.q_3 + ((ev.w_1 * ev.w_2) % P) * v.q_m + v.q_c) % P
                         zc == (num * v.alpha + M(<<L1, v.alpha, v.alpha>>)) % P
                     IN Mod(ev.q_arith * arith + zc * v.z - M(<<den, v.alpha, v.sigma_3>>))
       [] OTHER -> v[l]
RECURSIVE Combine(_, _, _)
Combine(ls, eps, ch) ==
  IF ls = <<>> THEN <<0, 0>>
  ELSE LET rest == TLCEval(Combine(Tail(ls), eps, (ch * eps) % P))
       IN <<(Com(ls[1]) * ch + rest[1]) % P, (v.ev[ls[1]] * ch + rest[2]) % P>>
Opening(e, ls, point, eps) ==
  LET c == TLCEval(Combine(ls, eps, 1))
      u == Mod(c[1] - ((I.g * c[2]) % P))
  IN Det(e, (((u * I.h) % P) * Inv(Mod(I.beta_h - I.h * point), P)) % P)
Open == /\ pc = "open"
        /\ Go("done", <<>>, << <<"open", <<Opening(1, <<"z">>, (v.zeta * Gen) % P, Coin(1)), Opening(2, SubSeq(Sorted, 1, 10), v.zeta, Coin(1))>> >> >>, 1, 0, 2)
Next == Start \/ Wires \/ Grand \/ Quotient \/ Evals \/ Open
Spec == SimInit("start") /\ [][Next]_simvars
Report == Emit(pf.com \o pf.evals \o pf.open)
TypeOK == n <= MaxEq
===============================================================================
