-------------------------------- MODULE GKR ----------------------------------
(* Layered arithmetic circuits (Libra, Hyrax) and their ideal proof system.    *)
(* A circuit is [ni, na, layers]; layers is a sequence (lowest first) of gate  *)
(* lists, a gate is <<op, left, right>> with op 0 = add, 1 = mul and 0-based   *)
(* positions in the layer below.  The input layer has two halves of equal      *)
(* power-of-two size: the witness, then the public inputs, zero padded.        *)
EXTENDS Integers, Sequences

RECURSIVE Pow2Above(_, _)
Pow2Above(n, p) == IF p >= n THEN p ELSE Pow2Above(n, 2 * p)
Half(c) == Pow2Above(IF c.ni > c.na THEN c.ni ELSE c.na, 1)
PadTo(s, n) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE 0]
Fits(c, x, w) == Len(x) <= Half(c) /\ Len(w) <= Half(c)
Layer0(c, x, w) == PadTo(w, Half(c)) \o PadTo(x, Half(c))

GateVal(g, below) ==
  IF g[1] = 0 THEN below[g[2] + 1] + below[g[3] + 1] ELSE below[g[2] + 1] * below[g[3] + 1]
EvalLayer(gates, below) == [i \in 1..Len(gates) |-> GateVal(gates[i], below)]

(* all layers, lowest first *)
Eval(c, x, w) ==
  LET f[d \in 0..Len(c.layers)] == IF d = 0 THEN Layer0(c, x, w) ELSE EvalLayer(c.layers[d], f[d - 1])
  IN [d \in 1..(Len(c.layers) + 1) |-> f[d - 1]]
Output(c, x, w) == Eval(c, x, w)[Len(c.layers) + 1]
(* data-parallel: one output vector per copy *)
Outputs(c, xs, ws) == [i \in 1..Len(xs) |-> Output(c, xs[i], ws[i])]

(* some value of every layer is non-zero (in some copy) *)
NonZero(c, xs, ws) ==
  \A d \in 1..(Len(c.layers) + 1) : \E i \in 1..Len(xs) : \E k \in 1..Len(Eval(c, xs[i], ws[i])[d]) : Eval(c, xs[i], ws[i])[d][k] # 0
==============================================================================
