----------------------------- MODULE SpartanSim ------------------------------
(* The Spartan verifier (NIZK and SNARK) as a transition system over the      *)
(* prover's messages: two committed sum-checks, the sigma protocols linking    *)
(* them, the opening of the witness, and for the SNARK the product and hash   *)
(* layers of the memory-checking argument.                                    *)
EXTENDS SimParts
Pub == I.x
T == 2 ^ CeilLog(IF I.na > I.ni + 1 THEN I.na ELSE I.ni + 1)
NX == CeilLog(I.nc)
NY == CeilLog(T) + 1
LSize == 2 ^ ((NY - 1) \div 2)
RRounds == (NY - 1) - (NY - 1) \div 2
Start ==
  /\ pc = "start"
  /\ NX >= 1 /\ (I.snark => CeilLog(I.n) >= 2 /\ CeilLog(I.m) >= 2)
  /\ Go("sc1", << <<"tau", CoinsAt(NX, 0)>>, <<"rx", <<>>>>, <<"claim", 0>>, <<"ry", <<>>>> >>,
        << <<"witness", Frees(LSize, 0)>>, <<"vc", <<Free(LSize + 1)>> >>, <<"va", <<Free(LSize + 2)>> >>, <<"vb", <<Free(LSize + 3)>> >>,
           <<"prod", <<Free(LSize + 4)>> >>, <<"ry_commit", <<Free(LSize + 5)>> >> >>, NX, LSize + 5, 0)
Sc1 == pc = "sc1" /\ Len(v.rx) < NX /\ Committed("sc1", 4, I.sc_4, I.sc_1, "rx", "sc1")
Know == /\ pc = "sc1" /\ Len(v.rx) = NX
        /\ LET z1 == Free(1) z2 == Free(2) t == Det(1, Mod(Com(I.sc_1.g, <<z1>>, I.sc_1.h, z2) - pf.vc[1] * Coin(1)))
           IN Go("product", <<>>, << <<"know", <<t, z1, z2>> >> >>, 1, 2, 1)
Product3 == pc = "product" /\ Go("eq1", <<>>, << <<"product", ProductWords(I.sc_1, pf.va[1], pf.vb[1], pf.prod[1], Coin(1), 0, 0)>> >>, 1, 5, 3)
Eq1 == /\ pc = "eq1"
       /\ LET one == (((pf.prod[1] - pf.vc[1] + P) % P) * EqXY(v.rx, v.tau)) % P
              ra == Coin(2) rb == Coin(3) rc == Coin(4)
          IN Eq("eq1", [h |-> I.sc_1.h, one |-> one, two |-> v.claim], "sc2", 4,
                << <<"ra", ra>>, <<"rb", rb>>, <<"rc", rc>>, <<"claim", (pf.va[1] * ra + pf.vb[1] * rb + pf.vc[1] * rc) % P>> >>)
Sc2 == pc = "sc2" /\ Len(v.ry) < NY /\ Committed("sc2", 3, I.sc_3, I.sc_1, "ry", "sc2")
Ip == /\ pc = "sc2" /\ Len(v.ry) = NY
      /\ OpenIP("ip", Tail(v.ry), pf.witness, pf.ry_commit[1], [n |-> I.pc_n, one |-> I.pc_1], "eq2", <<>>, 0)
\* value of a matrix at (rx, ry)
RECURSIVE SumM(_, _, _, _)
SumM(M, i, ex, ey) == IF i > Len(M) THEN 0 ELSE (((ex[M[i][1] + 1] * ey[M[i][2] + 1]) % P) * Mod(M[i][3]) + SumM(M, i + 1, ex, ey)) % P
EvalM(M) == LET ex == TLCEval(EqVec(v.rx)) ey == TLCEval(EqVec(v.ry)) IN SumM(M, 1, ex, ey)
Eq2 == /\ pc = "eq2"
       /\ LET ev == IF I.snark THEN Frees(3, 10) ELSE <<EvalM(I.A), EvalM(I.B), EvalM(I.C)>>
              xs == <<1>> \o [i \in 1 .. Len(Pub) |-> Mod(Pub[i])]
              ein == Inner(xs, EqVec(Tail(v.ry)))
              com == (ein * I.pc_1.g[1]) % P
              z == (((P + 1 - v.ry[1]) % P) * pf.ry_commit[1] + com * v.ry[1]) % P
              f == (ev[1] * v.ra + ev[2] * v.rb + ev[3] * v.rc) % P
          IN Eq("eq2", [h |-> I.pc_1.h, one |-> (z * f) % P, two |-> v.claim], IF I.snark THEN "layers" ELSE "point", 1, << <<"evals", ev>> >>)
\* the NIZK names the point of the two sum-checks
Point == /\ pc = "point"
         /\ Go("done", <<>>, << <<"rx", [i \in 1 .. NX |-> IF i = 1 THEN Det(1, v.rx[i]) ELSE v.rx[i]]>>,
                                <<"ry", [i \in 1 .. NY |-> IF i = 1 THEN Det(2, v.ry[i]) ELSE v.ry[i]]>> >>, 0, 0, 2)
--------------------------------------------------------------------------------
(* the memory-checking argument of the SNARK                                   *)
LN == CeilLog(I.n)
LM == CeilLog(I.m)
Pad(s) == [i \in 1 .. LM |-> IF i <= LM - Len(s) THEN 0 ELSE s[i - (LM - Len(s))]]
\* claimed roots: init, read, write, audit for rows and columns, halves of the dot products
Roots(from, e) ==
  LET init == NonZero(from + 1) rd == [i \in 1 .. 3 |-> NonZero(from + 1 + i)] wr == [i \in 1 .. 3 |-> NonZero(from + 4 + i)]
      audit == Det(e, (((init * Prod(wr, P)) % P) * Inv(Prod(rd, P), P)) % P)
  IN [init |-> init, read |-> rd, write |-> wr, audit |-> audit]
Layers ==
  /\ pc = "layers"
  /\ LET row == Roots(100, 1) col == Roots(120, 2)
         l == Frees(3, 140) r == [i \in 1 .. 3 |-> Det(2 + i, Mod(v.evals[i] - l[i]))]
         w(x) == <<x.init>> \o Vec(x.read) \o Vec(x.write) \o <<x.audit>>
         \* evaluations of the memory polynomials at the final points
         a == [row |-> [addr |-> Frees(3, 150), ts |-> Frees(3, 160), val |-> Frees(3, 170), audit |-> Free(180)],
               col |-> [addr |-> Frees(3, 190), ts |-> Frees(3, 200), val |-> Frees(3, 210), audit |-> Free(220)], val |-> Frees(3, 230)]
     IN Go("ops", << <<"gamma", CoinsAt(2, 0)>>, <<"layer", 0>>, <<"rands", <<>>>>, <<"a", a>>,
                     <<"claims", row.read \o row.write \o col.read \o col.write>>,
                     <<"dotp", <<l[1], r[1], l[2], r[2], l[3], r[3]>> >>, <<"roots", <<row.init, row.audit, col.init, col.audit>> >> >>,
           << <<"derefs", Frees(I.nd, 240)>>, <<"eval_dotp", Vec(l) \o Vec(r)>>, <<"eval_row", w(row)>>, <<"eval_col", w(col)>> >>, 2, 280, 5)
Gamma(addr, val, ts) == Mod(((addr * v.gamma[1] + val) % P) * v.gamma[1] + ts - v.gamma[2])
\* what the last layer has to come down to: the hash of each memory
OpsTargets(e) ==
  LET t(x, d) == [i \in 1 .. 3 |-> Gamma(x.addr[i], x.val[i], x.ts[i] + d)]
      all == t(v.a.row, 0) \o t(v.a.row, 1) \o t(v.a.col, 0) \o t(v.a.col, 1)
  IN [i \in 1 .. 12 |-> Det(e + i, all[i])]
DotTargets(e) == LET all == [i \in 1 .. 3 |-> <<v.a.row.val[i], v.a.col.val[i], v.a.val[i]>>]
                 IN [i \in 1 .. 3 |-> [j \in 1 .. 3 |-> Det(e + 3 * (i - 1) + j, all[i][j])]]
RECURSIVE Binary(_, _)
Binary(r, i) == IF i > Len(r) THEN 0 ELSE (r[i] * (2 ^ (Len(r) - i)) + Binary(r, i + 1)) % P
MemTargets(rands, e) ==
  LET addr == Binary(rands, 1)
      t(point, audit, i) == <<Det(e + i, Gamma(addr, EqXY(Pad(point), rands), 0)), Det(e + i + 1, Gamma(addr, EqXY(Pad(point), rands), audit))>>
  IN t(v.rx, v.a.row.audit, 1) \o t(v.ry, v.a.col.audit, 3)
\* one layer: `rounds` cubic polynomials, then the two halves of every product
\* a round in the middle: c0 fits the sum; the last one: c0 and c1 fit the sum and the final claim
RECURSIVE Polys(_, _, _, _, _, _)
Polys(j, rounds, claim, ck, fm, final) ==
  IF j > rounds THEN <<>>
  ELSE LET r == Coin(ck + j) c2 == Free(fm + 4 * j) c3 == NonZero(fm + 4 * j + 1)
           half == (P + 1) \div 2
           at(c) == EvalPoly(c, r, P)
       IN IF j < rounds
          THEN LET c1 == Free(fm + 4 * j + 2) c0 == (Mod(Det(j, claim) - c1 - c2 - c3) * half) % P
                   c == <<c0, c1, c2, c3>>
               IN <<c>> \o Polys(j + 1, rounds, at(c), ck, fm, final)
          ELSE LET sum == Mod(Det(j, claim) - c2 - c3)
                   f == Mod(final - Mx(Mx(Mx(c3, r) + c2, r), r))
                   \* 2 c0 + c1 = sum, c0 + c1 r = f
                   c0 == (Mod(sum * r - f) * Inv(Mod(2 * r - 1), P)) % P
                   c1 == Mod(sum - 2 * c0)
               IN << <<c0, c1, c2, c3>> >>
Layer(which, depth, dotp, next) ==
  LET last == v.layer = depth - 1
      rounds == v.layer
      all == IF last /\ dotp THEN v.claims \o v.dotp ELSE v.claims
      nc == Len(v.claims)
      coef == CoinsAt(Len(all), 0)
      rs == CoinsAt(rounds, Len(all))
      rl == Coin(Len(all) + rounds + 1)
      after == <<rl>> \o rs
      claim == Inner(coef, all)
      target == IF ~last THEN <<>> ELSE IF dotp THEN OpsTargets(rounds + 1) ELSE MemTargets(after, rounds + 1)
      dt == DotTargets(rounds + 13)
      \* halves: first layer, product right; last layer, combination right; between, free
      right0 == [i \in 1 .. nc |-> NonZero(i)]
      left == [i \in 1 .. nc |-> IF rounds = 0 THEN (((v.claims[i] + (IF i = 1 THEN Mx(Off(1), Inv(coef[1], P)) ELSE 0)) % P) * Inv(right0[i], P)) % P ELSE Free(20 + i)]
      right == [i \in 1 .. nc |-> IF last THEN (left[i] + Mod(target[i] - left[i]) * Inv(rl, P)) % P ELSE right0[i]]
      \* dot products: three factors, two halves for each of three matrices
      d0(f) == [i \in 1 .. 3 |-> Free(40 + 3 * f + i)]
      pairs(f) == LET z == d0(f) o == [i \in 1 .. 3 |-> (z[i] + Mod(dt[i][f] - z[i]) * Inv(rl, P)) % P] IN <<z[1], o[1], z[2], o[2], z[3], o[3]>>
      dr == IF last /\ dotp THEN pairs(1) ELSE <<>>
      dc == IF last /\ dotp THEN pairs(2) ELSE <<>>
      dv == IF last /\ dotp THEN pairs(3) ELSE <<>>
      eq == EqXY(rs, v.rands)
      fin == (Inner([i \in 1 .. nc |-> (coef[i] * eq) % P], [i \in 1 .. nc |-> (left[i] * right[i]) % P])
              + (IF last /\ dotp THEN Inner([i \in 1 .. 6 |-> (coef[nc + i] * dr[i]) % P], [i \in 1 .. 6 |-> (dc[i] * dv[i]) % P]) ELSE 0)) % P
      polys == Polys(1, rounds, claim, Len(all), 60, Det(rounds + 1, fin))
      RECURSIVE PW(_)
      PW(i) == IF i > Len(polys) THEN <<>> ELSE Vec(polys[i]) \o PW(i + 1)
      down == [i \in 1 .. nc |-> (left[i] + rl * Mod(right[i] - left[i])) % P]
  IN Go(IF last THEN next ELSE which,
        IF last /\ which = "ops" THEN << <<"opsr", after>>, <<"layer", 0>>, <<"rands", <<>>>>, <<"claims", v.roots>> >>
        ELSE << <<"memr", after>>, <<"layer", v.layer + 1>>, <<"rands", after>>, <<"claims", down>> >>,
        << <<which, <<rounds>> \o PW(1) \o Vec(left) \o Vec(right)>> >> \o (IF last /\ dotp THEN << <<"claim_dotp", Vec(dr) \o Vec(dc) \o Vec(dv)>> >> ELSE <<>>),
        Len(all) + rounds + 1, 60 + 4 * (rounds + 1), rounds + 1 + (IF last THEN (IF dotp THEN 21 ELSE 4) ELSE 0))
Ops == pc = "ops" /\ Layer("ops", LN, TRUE, "mem")
Mem == pc = "mem" /\ Layer("mem", LM, FALSE, "hash")
\* batches of evaluations are combined with fresh coins and opened together
Zs(s, c) == [i \in 1 .. c |-> IF i <= Len(s) THEN s[i] ELSE 0]
Joint(field, evals, size, bits, rands, coms, par, next) ==
  LET cs == CoinsAt(bits, 0)
      val == Inner(Zs(evals, size), EqVec(cs))
  IN OpenIP(field, cs \o rands, coms, (val * par.one.g[1]) % P, par, next, <<>>, bits)
Hash == pc = "hash" /\ Joint("p_derefs", v.a.row.val \o v.a.col.val, 8, 3, v.opsr, pf.derefs, I.derefs, "hash2")
Hash2 == pc = "hash2" /\ Joint("p_ops", v.a.row.addr \o v.a.row.ts \o v.a.col.addr \o v.a.col.ts \o v.a.val, 16, 4, v.opsr, I.ops_commit, I.ops, "hash3")
Hash3 == pc = "hash3" /\ Joint("p_mem", <<v.a.row.audit, v.a.col.audit>>, 2, 1, v.memr, I.mem_commit, I.mem, "done")
Next == Start \/ Sc1 \/ Know \/ Product3 \/ Eq1 \/ Sc2 \/ Ip \/ Eq2 \/ Point \/ Layers \/ Ops \/ Mem \/ Hash \/ Hash2 \/ Hash3
Spec == SimInit("start") /\ [][Next]_simvars
\* the proof in the order of its serialization
Sat == Vec(pf.witness)
  \o Vec(pf["sc1.poly"]) \o Vec(pf["sc1.eval"]) \o <<NX>> \o pf["sc1.proof"]
  \o Vec(pf["sc2.poly"]) \o Vec(pf["sc2.eval"]) \o <<NY>> \o pf["sc2.proof"]
  \o pf.ip \o pf.va \o pf.vb \o pf.vc \o pf.prod \o pf.know \o pf.product \o pf.eq1 \o pf.eq2 \o pf.ry_commit
Words == IF I.snark
  THEN Sat \o v.evals
    \o <<LM>> \o pf.mem \o <<0, 0, 0>>
    \o <<LN>> \o pf.ops \o pf.claim_dotp
    \o pf.eval_dotp \o pf.eval_row \o pf.eval_col
    \o pf.p_derefs \o pf.p_ops \o pf.p_mem
    \o Vec(v.a.row.val) \o Vec(v.a.col.val)
    \o Vec(v.a.row.addr) \o Vec(v.a.row.ts) \o <<v.a.row.audit>>
    \o Vec(v.a.col.addr) \o Vec(v.a.col.ts) \o <<v.a.col.audit>>
    \o Vec(v.a.val) \o Vec(pf.derefs)
  ELSE Sat \o Vec(pf.rx) \o Vec(pf.ry)
Report == Emit(Words)
TypeOK == m >= 0 /\ k >= 0
==============================================================================
