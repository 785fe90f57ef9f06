------------------------------ MODULE LibraSim ------------------------------
(* The Libra verifiers, plain and zero-knowledge, as a transition system over *)
(* the prover's messages: from the output layer down, two sum-checks a layer, *)
(* and at the end the values (or commitments) of the input layer.            *)
EXTENDS SimParts
D == Len(I.layers)
Half == Pow2(IF I.ni > I.na THEN I.ni ELSE IF I.na > 0 THEN I.na ELSE 1)
Bits(d) == IF d = 0 THEN CeilLog(Half) + 1 ELSE CeilLog(Len(I.layers[d]))
Value(s, r) == Inner(PadTo(s, 2 ^ Len(r)), EqVec(r))
PadX == PadTo(I.x, Half)
Full == PadTo(I.w, Half) \o PadX
\* the wiring of a layer at the points of its outputs and operands
RECURSIVE SumG(_, _, _, _, _, _)
SumG(gates, op, i, eg, ex, ey) ==
  IF i > Len(gates) THEN 0
  ELSE ((IF gates[i][1] = op THEN (eg[i] * ((ex[gates[i][2] + 1] * ey[gates[i][3] + 1]) % P)) % P ELSE 0) + SumG(gates, op, i + 1, eg, ex, ey)) % P
Wiring(op, ru, rv) ==
  LET a == TLCEval(EqVec(v.gu)) b == TLCEval(EqVec(v.gv))
      eg == TLCEval([i \in 1 .. Len(a) |-> (v.alpha * a[i] + v.beta * b[i]) % P])
  IN SumG(I.layers[v.lay], op, 1, eg, TLCEval(EqVec(ru)), TLCEval(EqVec(rv)))
Name(s) == s \o ToString(v.lay)
Start ==
  /\ pc = "start" /\ (I.zk \/ \A d \in 0 .. D - 1 : Bits(d) >= 1)
  /\ LET g == CoinsAt(Bits(D), 0)
         w == 2 ^ ((Bits(0) - 1) \div 2)
         out == Value(I.out, g)
     IN Go("one", << <<"gu", g>>, <<"gv", g>>, <<"alpha", 1>>, <<"beta", 0>>, <<"lay", D>>, <<"ru", <<>>>>, <<"rv", <<>>>>,
                     <<"claim", IF I.zk THEN (out * I.pc_1.g[1]) % P ELSE out>> >>,
           IF I.zk THEN << <<"witness", Frees(w, 0)>>, <<"end0", <<Free(w + 1)>> >>, <<"end1", <<Free(w + 2)>> >> >> ELSE <<>>, Bits(D), w + 2, 0)
B == Bits(v.lay - 1)
Half2 == (P + 1) \div 2
\* a round that is not the last of the layer
PlainRound(field, rr) ==
  LET r == Coin(1) c1 == Free(1) c2 == NonZero(2)
      c0 == (Mod(Det(1, v.claim) - c1 - c2) * Half2) % P
      c == <<c0, c1, c2>>
  IN Go(pc, << <<"claim", EvalPoly(c, r, P)>>, <<rr, Append(v[rr], r)>> >>, << <<Name(field), Vec(c)>> >>, 1, 2, 1)
One == /\ pc = "one" /\ Len(v.ru) < B
       /\ IF I.zk THEN Committed(Name("one"), 3, I.sc_3, I.sc_1, "ru", "one") ELSE PlainRound("one", "ru")
OneEnd ==
  /\ pc = "one" /\ Len(v.ru) = B
  /\ IF I.zk THEN Go("two", <<>>, << <<Name("x"), <<Free(1)>> >>, <<Name("y"), <<Free(2)>> >>, <<Name("z"), <<Free(3)>> >> >>, 0, 3, 0)
     ELSE LET e0 == IF v.lay = 1 THEN Det(2, Value(Full, v.ru)) ELSE Free(1)
              e1 == Free(2) e2 == Free(3)
              e3 == Det(1, Mod(v.claim - Mx(e0, (e1 + e2) % P)))
          IN Go("two", << <<"e", e0>> >>, << <<Name("vone"), Vec(<<e0, e1, e2, e3>>)>> >>, 0, 3, IF v.lay = 1 THEN 2 ELSE 1)
Two == /\ pc = "two" /\ IF I.zk THEN Len(v.rv) < B /\ Committed(Name("two"), 3, I.sc_3, I.sc_1, "rv", "two")
                        ELSE Len(v.rv) < B - 1 /\ PlainRound("two", "rv")
Down(x, y, dk) == << <<"gu", v.ru>>, <<"gv", y>>, <<"lay", v.lay - 1>>, <<"ru", <<>>>>, <<"rv", <<>>>>, <<"alpha", Coin(dk + 1)>>, <<"beta", Coin(dk + 2)>>, <<"claim", x>> >>
\* last round: it fits the sum, the values at the point and the wiring
TwoEnd ==
  /\ pc = "two" /\ ~I.zk /\ Len(v.rv) = B - 1
  /\ LET r == Coin(1) rv == Append(v.rv, r)
         mul == Det(1, Wiring(1, v.ru, rv)) add == Det(2, Wiring(0, v.ru, rv))
         e0 == IF v.lay = 1 THEN Det(5, Value(Full, rv)) ELSE Free(1)
         s == Det(3, v.claim)
         f == Det(4, (Mx(mul, Mx(e0, v.e)) + Mx(add, v.e) + Mx(add, e0)) % P)
         c2 == NonZero(2)
         a == Mod(s - c2) b == Mod(f - Mx(c2, Mx(r, r)))
         c0 == (Mod(Mx(a, r) - b) * Inv(Mod(2 * r - 1), P)) % P
         c1 == Mod(a - 2 * c0)
         words == << <<Name("two"), Vec(<<c0, c1, c2>>)>>, <<Name("vtwo"), Vec(<<e0, mul, add>>)>> >>
     IN IF v.lay = 1 THEN Go("done", <<>>, words, 1, 2, 5)
        ELSE Go("one", Down((v.e * Coin(2) + e0 * Coin(3)) % P, rv, 1), words, 3, 2, 4)
X == pf[Name("x")][1]
Y == pf[Name("y")][1]
Z == pf[Name("z")][1]
Prod3 ==
  /\ pc = "two" /\ I.zk /\ Len(v.rv) = B
  /\ Go("eq", <<>>, << <<Name("product"), ProductWords(I.sc_1, X, Y, Z, Coin(1), 0, 0)>> >>, 1, 5, 3)
EqLayer ==
  /\ pc = "eq"
  /\ LET one == (((X + Y) % P) * Wiring(0, v.ru, v.rv) + Mx(Z, Wiring(1, v.ru, v.rv))) % P
     IN Eq(Name("eq"), [h |-> I.sc_1.h, one |-> one, two |-> v.claim], IF v.lay = 1 THEN "ip0" ELSE "one", IF v.lay = 1 THEN 1 ELSE 3,
           IF v.lay = 1 THEN <<>> ELSE Down((X * Coin(2) + Y * Coin(3)) % P, v.rv, 1))
Par == [n |-> I.pc_n, one |-> I.pc_1]
Ip(field, at, y, next) == OpenIP(field, Tail(at), pf.witness, y, Par, next, <<>>, 0)
Input(field, x, y, at, next) ==
  LET com == Mx(Value(PadX, Tail(at)), I.pc_1.g[1])
  IN Eq(field, [h |-> I.pc_1.h, one |-> x, two |-> (Mx(y, P + 1 - at[1]) + Mx(com, at[1])) % P], next, 1, <<>>)
Ip0 == pc = "ip0" /\ Ip("ip0", v.ru, pf.end0[1], "eq0")
Eq0 == pc = "eq0" /\ Input("in0", X, pf.end0[1], v.ru, "ip1")
Ip1 == pc = "ip1" /\ Ip("ip1", v.rv, pf.end1[1], "eq1")
Eq1 == pc = "eq1" /\ Input("in1", Y, pf.end1[1], v.rv, "done")
Next == Start \/ One \/ OneEnd \/ Two \/ TwoEnd \/ Prod3 \/ EqLayer \/ Ip0 \/ Eq0 \/ Ip1 \/ Eq1
Spec == SimInit("start") /\ [][Next]_simvars
At(s, d) == LET f == s \o ToString(d) IN IF Has(pf, f) THEN pf[f] ELSE <<>>
RECURSIVE Layers(_)
Layers(d) ==
  IF d = 0 THEN <<>>
  ELSE LET b == Bits(d - 1)
           zk(w) == LET f == w \o ToString(d)
                        g(x) == IF Has(pf, f \o x) THEN pf[f \o x] ELSE <<>>
                    IN Vec(g(".poly")) \o Vec(g(".eval")) \o <<b>> \o g(".proof")
       IN (IF I.zk THEN zk("one") \o zk("two") \o At("x", d) \o At("y", d) \o At("z", d) \o At("product", d) \o At("eq", d)
           ELSE <<b>> \o At("one", d) \o At("vone", d) \o <<b>> \o At("two", d) \o At("vtwo", d)) \o Layers(d - 1)
Words == IF I.zk THEN Vec(pf.witness) \o <<D>> \o Layers(D) \o pf.ip0 \o pf.end0 \o pf.in0 \o pf.ip1 \o pf.end1 \o pf.in1
         ELSE <<D>> \o Layers(D)
Report == Emit(Words)
TypeOK == m >= 0 /\ k >= 0
==============================================================================
