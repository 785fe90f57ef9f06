------------------------------- MODULE PlonkCS -------------------------------
(* PLONK circuits as built by the Composer: a list of gate calls over          *)
(* variables (0 = the null variable), the four-wire rows they stand for, the   *)
(* copy classes, and when wire values satisfy a circuit.                        *)
EXTENDS Integers, Sequences, FiniteSets

(* call: [k, l, ql, r, qr, o, a, qa, qm, qc, pi]; a = -1: no auxiliary wire *)
Row(c) ==
  CASE c.k = "add" -> [q |-> <<IF c.a < 0 THEN 0 ELSE c.qa, c.ql, c.qr, -1, 0, c.qc>>, pi |-> c.pi,
                       v |-> <<IF c.a < 0 THEN 0 ELSE c.a, c.l, c.r, c.o>>]
    [] c.k = "mul" -> [q |-> <<IF c.a < 0 THEN 0 ELSE c.qa, 0, 0, -1, c.qm, c.qc>>, pi |-> c.pi,
                       v |-> <<IF c.a < 0 THEN 0 ELSE c.a, c.l, c.r, c.o>>]
    [] c.k = "const" -> [q |-> <<0, 1, 0, 0, 0, 0 - c.qc>>, pi |-> 0 - c.pi, v |-> <<0, c.l, c.l, c.l>>]
    [] c.k = "eq" -> [q |-> <<0, 1, -1, 0, 0, 0>>, pi |-> 0, v |-> <<0, c.l, c.r, 0>>]

(* q.1..4 weigh the wires w0..w3, q.5 the product w1*w2, q.6 the constant *)
GateVal(row, w, pi) ==
  row.q[1] * w[1] + row.q[2] * w[2] + row.q[3] * w[3] + row.q[4] * w[4]
  + row.q[5] * w[2] * w[3] + row.q[6] + pi

Rows(calls) == [i \in 1..Len(calls) |-> Row(calls[i])]
Pis(calls) == [i \in 1..Len(calls) |-> Row(calls[i]).pi]

(* overrides <<gate, slot, value>>: the wire is assigned another value than its variable.     *)
(* slots of a call: 0 aux, 1 left, 2 right, 3 output; "const" has the single slot 1 for all.  *)
WireOv(c, s) == IF c.k = "const" THEN s \in {2, 3, 4} ELSE TRUE
Wires(calls, vals, ov) ==
  [i \in 1..Len(calls) |->
     [s \in 1..4 |->
        LET c == calls[i]
            hit == {j \in 1..Len(ov) : ov[j][1] = i /\ (IF c.k = "const" THEN s > 1 ELSE ov[j][2] = s - 1)}
        IN IF hit # {} THEN ov[CHOOSE j \in hit : TRUE][3] ELSE vals[Row(c).v[s] + 1]]]

(* does the wire table satisfy the circuit `calls' with public inputs pi? *)
Positions(calls) == {<<i, s>> : i \in 1..Len(calls), s \in 1..4}
GatesHold(calls, w, pi) == \A i \in 1..Len(calls) : GateVal(Row(calls[i]), w[i], pi[i]) = 0
CopiesHold(calls, w) ==
  LET R == Rows(calls) IN
  \A p, q \in Positions(calls) : R[p[1]].v[p[2]] = R[q[1]].v[q[2]] => w[p[1]][p[2]] = w[q[1]][q[2]]
Satisfies(calls, w, pi) == GatesHold(calls, w, pi) /\ CopiesHold(calls, w)

RECURSIVE Pow2(_, _)
Pow2(n, p) == IF p >= n THEN p ELSE Pow2(n, 2 * p)
Padded(calls) == Pow2(Len(calls), 1)
=============================================================================
