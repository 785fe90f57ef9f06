------------------------------ MODULE Gadgets --------------------------------
(* What the Boolean, lookup, range and MultiEq gadgets mean: the documented    *)
(* value of each gadget as a function of its operands, and what a recorded     *)
(* constraint system has to satisfy to implement it.                           *)
EXTENDS Rank1
Not(x) == 1 - x
Xor(x, y) == (x + y) % 2
And(x, y) == x * y
Operand(d, v) == CASE d.t = "c" -> d.b [] d.t = "i" -> v[d.b + 1] [] d.t = "n" -> Not(v[d.b + 1])
Pow2(n) == IF n = 0 THEN 1 ELSE 2 ^ n
Index(k) == LET n == Len(k) IN IF n = 1 THEN k[1] ELSE IF n = 2 THEN k[1] + 2 * k[2] ELSE k[1] + 2 * k[2] + 4 * k[3]
BitsOf(x, n) == [i \in 1..n |-> (x \div Pow2(i - 1)) % 2]
SizeInBits(p) == CHOOSE n \in 1..31 : Pow2(n - 1) <= p /\ p < Pow2(n)
SideVal(l, v) == LET RECURSIVE S(_)
                     S(i) == IF i > Len(l) THEN 0 ELSE l[i][2] * v[l[i][1] + 1] + S(i + 1)
                 IN S(1)
(* may the gadget be satisfied when its bits have the values v *)
Feasible(q, v) ==
  LET k == [i \in 1..Len(q.k) |-> Operand(q.k[i], v)] IN
  CASE q.op = "eq" -> k[1] = k[2]
    [] q.op = "multieq" -> \A i \in 1..Len(q.eqs) : SideVal(q.eqs[i].l, v) = SideVal(q.eqs[i].r, v)
    [] q.op = "range" -> q.x[1] < q.x[2]
    [] q.op = "fr" -> q.x[3] = 1 => q.x[1] # 0
    [] OTHER -> TRUE
(* documented outputs; q.x supplies values that are witnesses rather than bits *)
Outputs(q, v) ==
  LET k == [i \in 1..Len(q.k) |-> Operand(q.k[i], v)] IN
  CASE q.op = "alloc" -> v
    [] q.op \in {"axor", "xor"} -> <<Xor(k[1], k[2])>>
    [] q.op \in {"aand", "and"} -> <<And(k[1], k[2])>>
    [] q.op = "aandnot" -> <<And(k[1], Not(k[2]))>>
    [] q.op = "anor" -> <<And(Not(k[1]), Not(k[2]))>>
    [] q.op = "not" -> <<Not(k[1])>>
    [] q.op = "id" -> <<k[1]>>
    [] q.op = "ch" -> <<Xor(And(k[1], k[2]), And(Not(k[1]), k[3]))>>
    [] q.op = "maj" -> <<Xor(Xor(And(k[1], k[2]), And(k[1], k[3])), And(k[2], k[3]))>>
    [] q.op \in {"lookup1_x", "lookup2_x", "lookup3_x"} -> <<q.tx[Index(k) + 1]>>
    [] q.op \in {"lookup2_xy", "lookup3_xy"} -> <<q.tx[Index(k) + 1], q.ty[Index(k) + 1]>>
    [] OTHER -> <<>>
(* outputs of the honest run, for gadgets whose outputs are witnesses *)
HonestOutputs(q) ==
  CASE q.op = "u64" -> [i \in 1..64 |-> (q.x[((i - 1) \div 16) + 1] \div Pow2((i - 1) % 16)) % 2]
    [] q.op = "field" -> BitsOf(q.x[1], SizeInBits(q.p))
    [] q.op = "cond" -> <<q.x[1]>>
    [] q.op = "fr" -> <<q.x[1], q.x[1]>>
    [] OTHER -> Outputs(q, q.v)
Bool(x) == x \in {0, 1}
(* verdicts on one recorded gadget; "ok" or the first clause that fails *)
AllConst(q) == \A i \in 1..Len(q.k) : q.k[i].t = "c"
HonestFeasible(q) == Feasible(q, q.v) /\ (q.op = "cond" => ~(Operand(q.k[1], q.v) = 1 /\ q.x[1] = 1))
Honest(e) ==
  LET q == e.q IN
  /\ AllHold(e.sys, e.v, q.p) = HonestFeasible(q)
  /\ e.d = 0
  /\ LET h == HonestOutputs(q) IN e.vals = h /\ [i \in 1..Len(e.outs) |-> Ev(e.outs[i], e.v, q.p)] = h
Sound(e) ==
  LET q == e.q
      fixed == IF q.op = "range" THEN [k \in {e.fix[1], e.fix[2]} \cup {e.ins[i] : i \in 1..Len(e.ins)} |->
                                          e.v[k + 1]] ELSE NoFix
      S == Sols(e.sys, e.n, q.p, fixed)
      Bits(s) == [i \in 1..Len(e.ins) |-> s[e.ins[i] + 1]]
      Out(s) == [i \in 1..Len(e.outs) |-> Ev(e.outs[i], s, q.p)]
  IN CASE q.op = "range" -> (S # {}) <=> Feasible(q, q.v)
       [] q.op = "cond" -> \A s \in S : Bool(Out(s)[1]) /\ ~(Bits(s)[1] = 1 /\ Out(s)[1] = 1)
       [] q.op = "fr" -> \A s \in S : (q.x[2] = 1 => s[e.pubw[1] + 1] = Out(s)[1]) /\ (q.x[3] = 1 => Out(s)[1] # 0)
       [] OTHER ->
            /\ \A s \in S : (\A i \in 1..Len(e.ins) : Bool(Bits(s)[i])) /\ Feasible(q, Bits(s)) /\ Out(s) = Outputs(q, Bits(s))
            \* and every boolean operand assignment that may be satisfied is
            /\ \A v \in [1..Len(e.ins) -> {0, 1}] : Feasible(q, v) => \E s \in S : Bits(s) = v
(* decompositions into many bits: each bit is boolean and nothing else is assumed *)
BitWise(e) == \A k \in 1..(e.n - 1) :
  LET cl == Closing(e.sys, k)
      OK(v) == \A i \in cl : Holds(e.sys[i], [e.v EXCEPT ![k + 1] = v], e.q.p)
  IN {v \in 0..(e.q.p - 1) : OK(v)} = {0, 1}
Judge(e) ==
  LET q == e.q IN
  IF q.op = "eq" /\ AllConst(q) /\ q.k[1].b # q.k[2].b THEN IF e.rc # "ok" THEN "ok" ELSE "const-mismatch"
  ELSE IF e.rc = "DivisionByZero" /\ q.op = "fr" /\ q.x[3] = 1 /\ q.x[1] = 0 THEN "ok"
  ELSE IF e.rc # "ok" THEN "rc"
  ELSE IF e.shape # 1 THEN "shape"
  ELSE IF Honest(e) # TRUE THEN "honest"
  ELSE IF q.op \in {"u64", "field"} THEN IF BitWise(e) THEN "ok" ELSE "bits"
  ELSE IF q.full = 1 THEN IF Sound(e) = TRUE THEN "ok" ELSE "sound"
  ELSE "ok"
==============================================================================
