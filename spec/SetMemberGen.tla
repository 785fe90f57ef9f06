----------------------------- MODULE SetMemberGen ----------------------------
EXTENDS SetMember, Json, IOUtils
WHAT == IOEnv.WHAT
N == atoi(IOEnv.N)
Rnd(p, n, d) == [i \in 1..n |-> RandomElement(0..(p - 1))]
(* small hash: every position of every tree of up to six leaves, random values; *)
(* half of the roots are right, some have another length                        *)
ToyInst(n, k, c) ==
  LET w == (c % 3) + 1  d == Depth(k)
      p == IF w = 3 THEN 3 ELSE IF w = 2 THEN (IF d > 2 THEN 3 ELSE 5) ELSE IF d > 2 THEN 5 ELSE 11
      wl == IF d = 0 THEN w ELSE IF c % 4 = 3 THEN (w % 3) + 1 ELSE w
      leaf == Rnd(p, wl, c)
      lm == TLCEval([i \in 1..d |-> Rnd(p, IF i = 1 THEN wl ELSE w, c)])
      good == ToyFold(k, lm, 1, leaf, w, p)
      m == RandomElement(1..8)
      root == IF m <= 4 THEN good ELSE IF m <= 6 THEN Rnd(p, w, c) ELSE IF m = 7 THEN [good EXCEPT ![RandomElement(1..w)] = (@ + 1) % p]
              ELSE IF c % 2 = 0 THEN SubSeq(good, 1, w - 1) ELSE Append(good, 0)
  IN [ev |-> "toy", p |-> p, w |-> w, index |-> k, it |-> (c + k) % 2, leaf |-> leaf, lemmas |-> lm, root |-> root, pub |-> RandomElement(0..1),
      full |-> IF d <= 3 THEN 1 ELSE 0]
(* real hashes: an honest path and its single alterations *)
Name(i) == "L" \o ToString(i)
Leaves(n) == [i \in 1..n |-> Name(i)]
Real(h, n, k, a, j) ==
  LET ls == Leaves(n)  lm == PathOf(ls, k)  rt == RootOf(ls)  lf == Node(ls, k)
      b == [ev |-> "real", h |-> h, n |-> n, index |-> k, it |-> (n + k) % 2, leaf |-> lf, lemmas |-> lm, root |-> rt, alter |-> a, at |-> j, len |-> IF n % 2 = 0 THEN 1 ELSE 32]
  IN CASE a = "none" -> b
       [] a = "root" -> [b EXCEPT !.root = "x"]
       [] a = "leaf" -> [b EXCEPT !.leaf = "x"]
       [] a = "other" -> [b EXCEPT !.leaf = Node(ls, Sibling(k))]
       [] a = "lemma" -> [b EXCEPT !.lemmas[j] = "x"]
       [] a = "swap" -> [b EXCEPT !.lemmas[j] = Node(ls, Ancestry(k)[j])]
       [] a = "index" -> [b EXCEPT !.index = Sibling(k)]
VARIABLES q
Field == {"mimc", "poseidon", "rescue"}
RealSet(H, ns, as) == {t \in [h : H, n : ns, k : 0..40, a : as, j : 0..5] :
    /\ t.k \in (t.n - 1)..(2 * t.n - 2)
    /\ IF t.a \in {"lemma", "swap"} THEN t.j \in 1..Depth(t.k) ELSE t.j = 0
    /\ t.a \in {"other", "index"} => t.k > 0 /\ Depth(Sibling(t.k)) = Depth(t.k) /\ Sibling(t.k) >= t.n - 1
    /\ t.a = "swap" => t.j > 1 \/ t.k > 0}
All == {"none", "root", "leaf", "other", "lemma", "swap", "index"}
Init == CASE WHAT = "toy" -> \E n \in 1..6 : \E k \in (n - 1)..(2 * n - 2) : \E c \in 1..N : q = ToyInst(n, k, c)
          [] WHAT = "field" -> \/ \E t \in RealSet(Field, 1..N, All) : q = Real(t.h, t.n, t.k, t.a, t.j)
                               \* deeper trees: the honest circuit, at the positions where the rows begin and end
                               \/ \E t \in RealSet({"mimc"}, {9, 12, 15, 17, 20}, {"none"}) : t.k \in {t.n - 1, t.n, 2 * t.n - 3, 2 * t.n - 2, 15, 16, 22} /\ q = Real(t.h, t.n, t.k, t.a, t.j)
          [] WHAT = "sha" -> \E t \in RealSet({"sha256"}, 2..N, All) : q = Real(t.h, t.n, t.k, t.a, t.j)
Next == UNCHANGED q
Spec == Init /\ [][Next]_q
Emit == PrintT("@INST@" \o ToJson(q))
==============================================================================
