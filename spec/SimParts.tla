------------------------------ MODULE SimParts ------------------------------
(* Steps shared by the committed sum-check protocols (Spartan, Libra, Hyrax). *)
EXTENDS Sim
Mod(x) == ((x % P) + P) % P
Mx(a, b) == (a * b) % P
Com(g, s, h, b) == (Inner(s, g) + h * b) % P
Frees(c, from) == [i \in 1 .. c |-> Free(from + i)]
CoinsAt(c, from) == [i \in 1 .. c |-> Coin(from + i)]
Pow2(x) == 2 ^ CeilLog(x)
PadTo(s, c) == [i \in 1 .. c |-> IF i <= Len(s) THEN ((s[i] % P) + P) % P ELSE 0]
\* one committed round: the polynomial (of `size` coefficients) sums to the claim and gives the next claim
Committed(which, size, gen, one, rr, next) ==
  LET r == Coin(1) w0 == Coin(2) w1 == Coin(3) c == Coin(4)
      poly == Free(1) eval == Free(2) z == Frees(size, 2) zd == Free(size + 3) zb == Free(size + 4)
      coef == [i \in 1 .. size |-> (w0 * (IF i = 1 THEN 2 ELSE 1) + w1 * Pow(r, i - 1, P)) % P]
      value == (v.claim * w0 + eval * w1) % P
      d == Det(1, Mod(Com(gen.g, z, gen.h, zd) - poly * c))
      dot == Det(2, Mod(Com(one.g, <<Inner(z, coef)>>, one.h, zb) - value * c))
  IN Go(next, << <<"claim", eval>>, <<rr, Append(v[rr], r)>> >>,
        << <<which \o ".poly", <<poly>> >>, <<which \o ".eval", <<eval>> >>, <<which \o ".proof", <<d, dot>> \o Vec(z) \o <<zd, zb>> >> >>, 4, size + 4, 2)
\* words of a product proof for commitments x, y, prod under the coin c, from free word f on: 3 equations, 5 free words
ProductWords(one, x, y, prod, c, e, f) ==
  LET z == Frees(5, f)
      a == Det(e + 1, Mod(Com(one.g, <<z[1]>>, one.h, z[2]) - x * c))
      b == Det(e + 2, Mod(Com(one.g, <<z[3]>>, one.h, z[4]) - y * c))
      d == Det(e + 3, Mod(Com(<<x>>, <<z[3]>>, one.h, z[5]) - prod * c))
  IN <<a, b, d>> \o Vec(z)
\* both commitments hide the same value
Eq(field, lhs, next, dk, regs) ==
  LET z == Free(1) a == Det(1, Mod(z * lhs.h - ((lhs.one - lhs.two + P) % P) * Coin(1)))
  IN Go(next, regs, << <<field, <<a, z>> >> >>, dk, 1, 1)
\* opening of the polynomial in `coms` at `point` to the committed value `com`
OpenIP(field, point, coms, com, par, next, regs, pre) ==
  LET s == Len(point)
      rounds == s - s \div 2
      left == EqVec(SubSeq(point, 1, s \div 2))
      right == EqVec(SubSeq(point, s \div 2 + 1, s))
      gamma == (Inner(left, coms) + com) % P
      xs == CoinsAt(rounds, pre)
      L == Frees(rounds, 0) R == Frees(rounds, rounds)
      beta == Free(2 * rounds + 1) z1 == Free(2 * rounds + 2) z2 == Free(2 * rounds + 3)
      c == Coin(pre + rounds + 1)
      sq(x) == (x * x) % P
      \* s_j: the i-th challenge squared for every set bit, the last challenge belonging to bit 0
      inv == Inv(Prod(xs, P), P)
      sj == [j \in 1 .. 2 ^ rounds |-> (inv * Prod([b \in 1 .. rounds |-> IF ((j - 1) \div 2 ^ (b - 1)) % 2 = 1 THEN sq(xs[rounds - b + 1]) ELSE 1], P)) % P]
      bs == Inner(right, sj)
      ghat == Inner(sj, par.n.g)
      hat == (Inner([i \in 1 .. rounds |-> sq(xs[i])], L) + Inner([i \in 1 .. rounds |-> sq(Inv(xs[i], P))], R) + gamma) % P
      rhs == (((ghat + par.one.g[1] * bs) % P) * z1 + par.one.h * z2) % P
      delta == Det(1, Mod(rhs - ((hat * c + beta) % P) * bs))
  IN Go(next, regs, << <<field, Vec(L) \o Vec(R) \o <<delta, beta, z1, z2>> >> >>, pre + rounds + 1, 2 * rounds + 3, 1)
==============================================================================
