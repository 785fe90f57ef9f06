------------------------------ MODULE HyraxSim ------------------------------
(* The Hyrax verifier as a transition system over the prover's messages: per  *)
(* layer all rounds of the sum-check are committed first and their relations  *)
(* - every polynomial sums to the value of the previous one, the last value   *)
(* is that of the wiring - are then checked in one random combination.       *)
EXTENDS SimParts
D == Len(I.layers)
N == Len(I.xs)
LN == CeilLog(N)
Half == Pow2(IF I.ni > I.na THEN I.ni ELSE IF I.na > 0 THEN I.na ELSE 1)
Bits(d) == IF d = 0 THEN CeilLog(Half) + 1 ELSE CeilLog(Len(I.layers[d]))
RECURSIVE SumG(_, _, _, _, _, _)
SumG(gates, op, i, eg, ex, ey) ==
  IF i > Len(gates) THEN 0
  ELSE ((IF gates[i][1] = op THEN (eg[i] * ((ex[gates[i][2] + 1] * ey[gates[i][3] + 1]) % P)) % P ELSE 0) + SumG(gates, op, i + 1, eg, ex, ey)) % P
Wiring(op, rs, r0, r1) ==
  LET a == TLCEval(EqVec(v.ql)) b == TLCEval(EqVec(v.qr))
      eg == TLCEval([i \in 1 .. Len(a) |-> (v.u0 * a[i] + v.u1 * b[i]) % P])
  IN Mx(EqXY(v.qa, rs), SumG(I.layers[v.lay], op, 1, eg, TLCEval(EqVec(r0)), TLCEval(EqVec(r1))))
Name(s) == s \o ToString(v.lay)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flat(Tail(s))
Xs == TLCEval(Flat([i \in 1 .. N |-> PadTo(I.xs[i], Half)]))
Start ==
  /\ pc = "start"
  /\ LET q == CoinsAt(Bits(D), 0) qa == CoinsAt(LN, Bits(D))
         w == 2 ^ (CeilLog(N * Half) \div 2)
         out == Inner([i \in 1 .. N |-> Inner(PadTo(I.outs[i], 2 ^ Len(q)), EqVec(q))], EqVec(qa))
     IN Go("layer", << <<"qa", qa>>, <<"ql", q>>, <<"qr", q>>, <<"u0", 1>>, <<"u1", 0>>, <<"lay", D>>, <<"claim", Mx(out, I.pc_1.g[1])>> >>,
           << <<"witness", Frees(w, 0)>>, <<"y0", <<Free(w + 1)>> >>, <<"y1", <<Free(w + 2)>> >> >>, Bits(D) + LN, w + 2, 0)
Layer ==
  /\ pc = "layer"
  /\ LET g == Bits(v.lay - 1)
         rounds == LN + 2 * g
         r == CoinsAt(rounds, 0)
         rs == SubSeq(r, 1, LN) r0 == SubSeq(r, LN + 1, LN + g) r1 == SubSeq(r, LN + g + 1, rounds)
         rho == CoinsAt(rounds + 1, rounds + 1)
         c == Coin(2 * rounds + 3)
         a0 == Det(1, v.claim)
         x == Free(1) y == Free(2) z == Free(3) zc == Free(4)
         polys == Frees(rounds, 4) evals == Frees(rounds, 4 + rounds) zd == Frees(rounds, 4 + 2 * rounds)
         size(j) == IF j <= LN THEN 4 ELSE 3
         gen(j) == IF j <= LN THEN I.sc_4 ELSE I.sc_3
         zs == TLCEval([j \in 1 .. rounds |-> [i \in 1 .. size(j) |-> Free(10 + 3 * rounds + 4 * j + i)]])
         deltas == [j \in 1 .. rounds |-> Det(4 + j, Mod(Com(gen(j).g, zs[j], gen(j).h, zd[j]) - Mx(polys[j], c)))]
         \* p(0) + p(1) of this polynomial less the value of the one before
         sum(j) == (zs[j][1] + EvalPoly(zs[j], 1, P)) % P
         row(j) == Mod((IF j <= rounds THEN sum(j) ELSE 0) - (IF j > 1 THEN EvalPoly(zs[j - 1], r[j - 1], P) ELSE 0))
         jz == Inner(rho, [j \in 1 .. rounds + 1 |-> row(j)])
         add == Wiring(0, rs, r0, r1) mul == Wiring(1, rs, r0, r1)
         fin == (Mx(add, (x + y) % P) + Mx(mul, z)) % P
         cc == Det(5 + rounds, Mod(Com(I.sc_1.g, <<jz>>, I.sc_1.h, zc) - Mx(c, Mod(Mx(a0, rho[1]) - Mx(rho[rounds + 1], fin)))))
         last == v.lay = 1
         used == 2 * rounds + 3
     IN Go(IF last THEN "ip0" ELSE "layer",
           << <<"qa", rs>>, <<"ql", r0>>, <<"qr", r1>>, <<"x", x>>, <<"y", y>>, <<"lay", v.lay - 1>> >>
             \o (IF last THEN <<>> ELSE << <<"u0", Coin(used + 1)>>, <<"u1", Coin(used + 2)>>, <<"claim", (Mx(x, Coin(used + 1)) + Mx(y, Coin(used + 2))) % P>> >>),
           << <<Name("layer"), ProductWords(I.sc_1, x, y, z, Coin(rounds + 1), 1, 20 + 7 * rounds)
                               \o <<a0, cc, x, y, z>> \o Vec(polys) \o Vec(evals) \o Vec(deltas) \o Vec(Flat(zs)) \o Vec(zd) \o <<zc>> >> >>,
           IF last THEN used ELSE used + 2, 30 + 7 * rounds, 5 + rounds)
Par == [n |-> I.pc_n, one |-> I.pc_1]
Point(q) == v.qa \o Tail(q)
Input(field, x, y, q, next) ==
  LET com == Mx(Inner(Xs, EqVec(Point(q))), I.pc_1.g[1])
  IN Eq(field, [h |-> I.pc_1.h, one |-> x, two |-> (Mx(y, P + 1 - q[1]) + Mx(com, q[1])) % P], next, 1, <<>>)
Ip0 == pc = "ip0" /\ OpenIP("ip0", Point(v.ql), pf.witness, pf.y0[1], Par, "eq0", <<>>, 0)
Eq0 == pc = "eq0" /\ Input("eq0", v.x, pf.y0[1], v.ql, "ip1")
Ip1 == pc = "ip1" /\ OpenIP("ip1", Point(v.qr), pf.witness, pf.y1[1], Par, "eq1", <<>>, 0)
Eq1 == pc = "eq1" /\ Input("eq1", v.y, pf.y1[1], v.qr, "done")
Next == Start \/ Layer \/ Ip0 \/ Eq0 \/ Ip1 \/ Eq1
Spec == SimInit("start") /\ [][Next]_simvars
RECURSIVE Layers(_)
Layers(d) == IF d = 0 THEN <<>> ELSE pf["layer" \o ToString(d)] \o Layers(d - 1)
Words == Vec(pf.witness) \o <<D>> \o Layers(D) \o pf.ip0 \o pf.y0 \o pf.eq0 \o pf.ip1 \o pf.y1 \o pf.eq1
Report == Emit(Words)
TypeOK == m >= 0 /\ k >= 0
==============================================================================
