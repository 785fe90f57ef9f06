--------------------------- MODULE BulletproofsSim ---------------------------
(* The Bulletproofs verifier for arithmetic circuits as a transition system   *)
(* over the prover's messages: commitments, the coefficients of t(X), the     *)
(* vectors at x, and the inner-product argument for them.                     *)
EXTENDS Sim
Mod(x) == ((x % P) + P) % P
Q == Len(I.cons)
K == Len(I.x) + 1
N == 2 ^ CeilLog(IF I.na > Q THEN I.na ELSE Q)
Lg == CeilLog(N)
Xs == <<1>> \o [i \in 1 .. Len(I.x) |-> Mod(I.x[i])]
Frees(c, from) == [i \in 1 .. c |-> Free(from + i)]
Cp == <<"A_I", "A_O", "A_W", "S">>
Ts == <<2, 3, 5, 6, 7, 8, 9, 10>>
Start == /\ pc = "start" /\ Len(I.g_vec) = N /\ I.h # 0
         /\ Go("poly", << <<"y", Coin(1)>>, <<"z", Coin(2)>>, <<"A_I", Free(1)>>, <<"A_O", Free(2)>>, <<"A_W", Free(3)>>, <<"S", Free(4)>> >>,
               << <<"com", Frees(4, 0)>> >>, 2, 4, 0)
Poly == /\ pc = "poly"
        /\ Go("eval", << <<"x", Coin(1)>>, <<"T", Frees(8, 0)>> >>, << <<"com", Frees(8, 0)>> >>, 1, 8, 0)
\* powers of the challenges
Y(i) == Pow(v.y, i, P)
Z(i) == Pow(v.z, i, P)
X(i) == Pow(v.x, i, P)
\* the three matrices joined by powers of z: sum over the terms of constraint i whose variable is chosen by sel
RECURSIVE Terms(_, _, _)
Terms(t, sel, val) == IF t = <<>> THEN 0
  ELSE ((IF t[1][1] = sel THEN (Mod(t[1][3]) * val[t[1][2] + 1]) % P ELSE 0) + Terms(Tail(t), sel, val)) % P
Joined(i, sel, val) == (Terms(I.cons[i][1], sel, val) + Z(Q) * Terms(I.cons[i][2], sel, val) + Z(2 * Q) * Terms(I.cons[i][3], sel, val)) % P
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE (s[1] + Sum(Tail(s))) % P
Unit(j) == [i \in 1 .. I.na |-> IF i = j THEN 1 ELSE 0]
\* the vectors of length N: weights of left, right, output wires and of the witness
WL == [i \in 1 .. N |-> IF i <= Q THEN Z(i) ELSE 0]
WR == [i \in 1 .. N |-> IF i <= Q THEN (((Z(Q) * Z(i)) % P) * Inv(Y(i - 1), P)) % P ELSE 0]
WO == [i \in 1 .. N |-> IF i <= Q THEN (Z(2 * Q) * Z(i)) % P ELSE 0]
WV == [j \in 1 .. N |-> IF j <= I.na THEN Mod(0 - Sum([i \in 1 .. Q |-> (Z(i) * Joined(i, 1, Unit(j))) % P])) ELSE 0]
Eval ==
  /\ pc = "eval"
  /\ LET l == Frees(N, 0) r == Frees(N, N) t == Free(2 * N + 1)
         hinv == TLCEval([i \in 1 .. N |-> (I.h_vec[i] * Inv(Y(i - 1), P)) % P])
         wl == TLCEval(WL) wr == TLCEval(WR)
         delta == Inner(wl, wr)
         cc == Sum([i \in 1 .. Q |-> (Z(i) * Joined(i, 0, Xs)) % P])
         right == (((X(4) * ((delta + cc) % P)) % P) * I.g + Sum([i \in 1 .. 8 |-> (v.T[i] * X(Ts[i])) % P])) % P
         tau == Det(1, (Mod(right - ((t * I.g) % P)) * Inv(I.h, P)) % P)
         ph == Mod(v.A_I * X(2) + v.A_O * X(3) + v.A_W * X(4) + v.S * X(5) - ((v.x * Sum(I.h_vec)) % P))
         pw == (((Inner(wl, hinv) + Inner(wr, I.g_vec)) % P) * X(2) + Inner(WO, hinv) * v.x + Inner(WV, hinv)) % P
         mu == Det(2, (Mod((ph + pw) - Inner(l, I.g_vec) - Inner(r, hinv)) * Inv(I.h, P)) % P)
         ux == (I.u * Coin(1)) % P
         ip == Det(3, (Inner(l, I.g_vec) + Inner(r, I.h_vec) + ux * t) % P)
     IN Go("ipp", << <<"ux", ux>>, <<"ip", ip>> >>, << <<"eval", <<mu, tau>> \o Vec(l) \o Vec(r) \o <<t>> >> >>, 1, 2 * N + 1, 3)
Ipp ==
  /\ pc = "ipp"
  /\ LET xs == [i \in 1 .. Lg |-> Coin(i)]
         L == Frees(Lg, 0) R == Frees(Lg, Lg) b == Free(2 * Lg + 1)
         inv == Inv(Prod(xs, P), P)
         s == TLCEval([j \in 1 .. N |-> (inv * Prod([c \in 1 .. Lg |-> IF ((j - 1) \div 2 ^ (c - 1)) % 2 = 1 THEN (xs[Lg - c + 1] * xs[Lg - c + 1]) % P ELSE 1], P)) % P])
         gs == Inner(s, I.g_vec)
         hs == Inner([j \in 1 .. N |-> s[N + 1 - j]], I.h_vec)
         right == (Sum([i \in 1 .. Lg |-> (L[i] * ((xs[i] * xs[i]) % P)) % P]) + Sum([i \in 1 .. Lg |-> (R[i] * Pow(Inv(xs[i], P), 2, P)) % P]) + v.ip) % P
         d == (gs + b * v.ux) % P
         a == Det(1, (Mod(right - ((b * hs) % P)) * Inv(d, P)) % P)
     IN d # 0 /\ Go("done", <<>>, << <<"ipp", Vec(L) \o Vec(R) \o <<a, b, v.ip>> >> >>, Lg, 2 * Lg + 1, 1)
Next == Start \/ Poly \/ Eval \/ Ipp
Spec == SimInit("start") /\ [][Next]_simvars
Report == Emit(pf.com \o pf.eval \o pf.ipp)
TypeOK == n <= MaxEq
===============================================================================
