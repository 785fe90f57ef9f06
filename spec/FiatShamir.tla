----------------------------- MODULE FiatShamir ------------------------------
(* The interactive protocols behind the non-interactive proofs: who sends what  *)
(* in which order. A protocol is a sequence of steps; a step is either a        *)
(* message (a set of named elements, at first the statement) or a number of     *)
(* verifier coins. The Fiat-Shamir transform is sound only if every coin is     *)
(* derived from every element sent before it.                                   *)
(* Elements are <<name, i, j>>. Responses that no coin follows are left out.    *)
EXTENDS Naturals, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
M(S) == [k |-> "m", e |-> S, n |-> 0]
C(n) == [k |-> "c", e |-> {}, n |-> n]
E1(nm) == <<nm, 0, 0>>
V(nm, i, len) == {<<nm, i, j>> : j \in 1..len}
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Rounds(n, Op(_)) == Flat([i \in 1..n |-> Op(i)])

(* ---- sub-protocols over committed values ---- *)
Eq(p, l) == <<M({<<p \o ".alpha", l, 0>>}), C(1)>>
Prod(p, l) == <<M({<<p \o ".alpha", l, 0>>, <<p \o ".beta", l, 0>>, <<p \o ".delta", l, 0>>}), C(1)>>
InnerProd(p, l, r) ==
  Rounds(r, LAMBDA i : <<M({<<p \o ".L", l, i>>, <<p \o ".R", l, i>>}), C(1)>>)
  \o <<M({<<p \o ".delta", l, 0>>, <<p \o ".beta", l, 0>>}), C(1)>>
(* a sum-check whose round polynomials and values are committed *)
ZkSum(p, l, r) ==
  Rounds(r, LAMBDA i : <<M({<<p \o ".poly", l, i>>}), C(1), M({<<p \o ".eval", l, i>>}), C(2),
                         M({<<p \o ".d", l, i>>, <<p \o ".dotcd", l, i>>}), C(1)>>)
(* a sum-check in the clear *)
Sum(p, l, r) == Rounds(r, LAMBDA i : <<M({<<p \o ".poly", l, i>>}), C(1)>>)

(* ---- Marlin: three oracle rounds, evaluations, opening ---- *)
Marlin(s) ==
  <<M({E1("ivk")} \cup V("x", 0, s.x)), M(V("com", 1, s.c1)), C(4), M(V("com", 2, s.c2)), C(1),
    M(V("com", 3, s.c3)), C(1), M(V("eval", 0, s.ev)), C(1)>>
(* ---- PLONK: wires, grand product, quotient, evaluations, opening ---- *)
Plonk(s) ==
  <<M(V("x", 0, s.x)), M(V("com", 1, s.c1)), C(2), M(V("com", 2, s.c2)), C(1),
    M(V("com", 3, s.c3)), C(1), M(V("eval", 0, s.ev)), C(1)>>
(* ---- Bulletproofs: arithmetic circuit, inner product ---- *)
Bulletproofs(s) ==
  <<M({E1("circuit"), E1("g"), E1("h"), E1("u")} \cup V("gvec", 0, s.N) \cup V("hvec", 0, s.N) \cup V("x", 0, s.x)),
    M({E1("A_I"), E1("A_O"), E1("A_W"), E1("S")}), C(2),
    M({E1("T_2"), E1("T_3"), E1("T_5"), E1("T_6"), E1("T_7"), E1("T_8"), E1("T_9"), E1("T_10")}), C(1),
    M({E1("mu"), E1("tau_x"), E1("t_x")} \cup V("l_x", 0, s.N) \cup V("r_x", 0, s.N)), C(1),
    M({E1("P")})>>
  \o Rounds(s.lg, LAMBDA i : <<M({<<"L", 0, i>>, <<"R", 0, i>>}), C(1)>>)

(* ---- Spartan ---- *)
Sat(s) ==
  <<M({E1("r1cs_hash"), E1("params_hash")} \cup (IF s.snark THEN {E1("encode_hash")} ELSE {}) \cup V("x", 0, s.x)),
    M(V("witness", 0, s.w)), C(s.rx)>>
  \o ZkSum("sc1", 0, s.rx)
  \o <<M({E1("vc"), E1("know.t")}), C(1), M({E1("va"), E1("vb"), E1("prod")})>> \o Prod("prodp", 0)
  \o Eq("eq1", 0) \o <<C(3)>>
  \o ZkSum("sc2", 0, s.ry)
  \o <<M({E1("commit_ry")})>> \o InnerProd("ip", 0, s.ip) \o Eq("eq2", 0)
(* a grand-product argument: layer i has i-1 rounds *)
GrandProd(p, lg, claims, dotp) ==
  Rounds(lg, LAMBDA i :
    <<C(IF i = lg THEN claims + dotp ELSE claims)>> \o Sum(p, i, i - 1)
    \o <<M(V(p \o ".left", i, claims) \cup V(p \o ".right", i, claims)
           \cup (IF i = lg THEN V(p \o ".drow", 0, dotp) \cup V(p \o ".dcol", 0, dotp) \cup V(p \o ".dval", 0, dotp) ELSE {})), C(1)>>)
Spark(s) ==
  <<M({E1("claim.A"), E1("claim.B"), E1("claim.C")}),
    M({E1("enc.n"), E1("enc.m")} \cup V("enc.mem", 0, s.em) \cup V("enc.ops", 0, s.eo)),
    M(V("derefs", 0, s.dr)), C(2),
    M({<<p, 0, 0>> : p \in {"row.init", "row.audit", "col.init", "col.audit"}}
      \cup V("row.read", 0, 3) \cup V("row.write", 0, 3) \cup V("col.read", 0, 3) \cup V("col.write", 0, 3)
      \cup V("dotp.left", 0, 3) \cup V("dotp.right", 0, 3))>>
  \o GrandProd("gops", s.lgn, 12, 6) \o GrandProd("gmem", s.lgm, 4, 0)
  \o <<M(V("deref.row", 0, 3) \cup V("deref.col", 0, 3)), C(3)>> \o InnerProd("ipd", 0, s.ipd)
  \o <<M(V("ev.raddr", 0, 3) \cup V("ev.rts", 0, 3) \cup V("ev.caddr", 0, 3) \cup V("ev.cts", 0, 3) \cup V("ev.val", 0, 3)), C(4)>>
  \o InnerProd("ipo", 0, s.ipo)
  \o <<M({E1("ev.raudit"), E1("ev.caudit")}), C(1)>> \o InnerProd("ipm", 0, s.ipm)

(* ---- Libra ---- *)
(* bits[d] = size of the layer below the d-th sum-check *)
Libra(s) ==
  <<M({E1("circuit_hash")} \cup V("x", 1, s.x) \cup V("out", 1, s.out)), C(s.ob)>>
  \o Rounds(Len(s.bits), LAMBDA d :
       Sum("p1", d, s.bits[d]) \o <<M(V("v1", d, 4))>> \o Sum("p2", d, s.bits[d]) \o <<M(V("v2", d, 3))>>
       \o (IF d < Len(s.bits) THEN <<C(2)>> ELSE <<>>))
Input(q, r) == <<M({E1("y" \o q)})>> \o InnerProd("ip" \o q, 0, r) \o Eq("eq" \o q, 0)
ZkLibra(s) ==
  <<M({E1("circuit_hash"), E1("params_hash")} \cup V("x", 1, s.x) \cup V("out", 1, s.out) \cup V("witness", 0, s.w)), C(s.ob)>>
  \o Rounds(Len(s.bits), LAMBDA d :
       ZkSum("p1", d, s.bits[d]) \o <<M({<<"cx", d, 0>>})>>
       \o ZkSum("p2", d, s.bits[d]) \o <<M({<<"cy", d, 0>>, <<"cz", d, 0>>})>>
       \o Prod("prod", d) \o Eq("eq", d)
       \o (IF d < Len(s.bits) THEN <<C(2)>> ELSE <<>>))
  \o Input("0", s.ip) \o Input("1", s.ip)
(* ---- Hyrax: lgn copy bits; bits as above ---- *)
Hyrax(s) ==
  <<M({E1("circuit_hash"), E1("params_hash")} \cup UNION {V("x", i, s.x) \cup V("out", i, s.out) : i \in 1..s.copies}
      \cup V("witness", 0, s.w)), C(s.ob)>>
  \o Rounds(Len(s.bits), LAMBDA d :
       LET r == s.lgn + 2 * s.bits[d] IN
       Rounds(r, LAMBDA i : <<M({<<"sc.poly", d, i>>}), C(1), M({<<"sc.eval", d, i>>})>>)
       \o <<M({<<"cx", d, 0>>, <<"cy", d, 0>>, <<"cz", d, 0>>})>> \o Prod("prod", d)
       \o <<M(V("delta", d, r)), C(r + 1), M({<<"c", d, 0>>}), C(1)>>
       \o (IF d < Len(s.bits) THEN <<C(2)>> ELSE <<>>))
  \o Input("0", s.ip) \o Input("1", s.ip)

Protocol(p, s) ==
  CASE p = "marlin" -> Marlin(s) [] p = "plonk" -> Plonk(s) [] p = "bulletproofs" -> Bulletproofs(s)
    [] p = "spartan-nizk" -> Sat(s) [] p = "spartan-snark" -> Sat(s) \o Spark(s)
    [] p = "libra" -> Libra(s) [] p = "zklibra" -> ZkLibra(s) [] p = "hyrax" -> Hyrax(s)

(* number of coins before each step, and in all *)
Before(st) == [i \in 1..Len(st) |-> FoldLeft(LAMBDA a, t : a + t.n, 0, SubSeq(st, 1, i - 1))]
Total(st) == FoldLeft(LAMBDA a, t : a + t.n, 0, st)
Elements(st) == UNION {st[i].e : i \in 1..Len(st)}
(* coins sent before the element; later coins must depend on it *)
Position(st) ==
  LET b == Before(st)
      pairs == UNION {{<<x, b[i]>> : x \in st[i].e} : i \in {i \in 1..Len(st) : st[i].k = "m"}}
  IN [x \in {p[1] : p \in pairs} |-> CHOOSE n \in {p[2] : p \in {q \in pairs : q[1] = x}} : TRUE]
(* every element is sent once *)
WellFormed(st) == FoldLeft(LAMBDA a, t : a + Cardinality(t.e), 0, st) = Cardinality(Elements(st))
IsSubSeqOf(v, p) == FoldLeft(LAMBDA i, x : IF i <= Len(v) /\ v[i] = x THEN i + 1 ELSE i, 1, p) = Len(v) + 1
==============================================================================
