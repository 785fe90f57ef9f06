------------------------------ MODULE GKRTrace -------------------------------
(* Trace validation for Libra and Hyrax: layer values, outputs and verdicts    *)
(* against the ideal verifier of GKR.                                          *)
EXTENDS GKR, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP
VARIABLES l, inst, circ, proof, bad
vars == <<l, inst, circ, proof, bad>>
Init == l = 1 /\ inst = -1 /\ circ = <<>> /\ proof = <<>> /\ bad = <<>>
Put(f, i, v) == [j \in (DOMAIN f) \cup {i} |-> IF j = i THEN v ELSE f[j]]
(* The circuit of the specification is evaluated modulo a prime here: another  *)
(* circuit, or an altered input, may leave the integers TLC has.               *)
Q == 30011
ModV(s) == [i \in 1..Len(s) |-> s[i] % Q]
ModVV(s) == [i \in 1..Len(s) |-> ModV(s[i])]
GateQ(g, below) ==
  IF g[1] = 0 THEN (below[g[2] + 1] + below[g[3] + 1]) % Q ELSE (below[g[2] + 1] * below[g[3] + 1]) % Q
LayerQ(gates, below) == [i \in 1..Len(gates) |-> GateQ(gates[i], below)]
EvalQ(c, x, w) ==
  LET f[d \in 0..Len(c.layers)] == IF d = 0 THEN ModV(Layer0(c, x, w))
                                   ELSE LayerQ(c.layers[d], f[d - 1])
  IN [d \in 1..(Len(c.layers) + 1) |-> f[d - 1]]
OutputsQ(c, xs, ws) == [i \in 1..Len(xs) |-> EvalQ(c, xs[i], ws[i])[Len(c.layers) + 1]]
Rejected(r) == r \in {"reject", "error", "panic", "malformed"}

(* the transcript of the verification is the one the proof was made for *)
Same(e, p) ==
  /\ circ[e.c] = circ[p.hc] /\ e.out = p.out /\ e.par = p.par
  /\ IF p.kind = "plain"  (* the plain verifier is given the input layer *)
     THEN \A i \in 1..1 : Layer0(circ[e.c], e.x[i], e.w[i]) = Layer0(circ[e.c], p.x[i], p.w[i])
     ELSE e.x = p.x
W(e, p) == IF p.kind = "plain" THEN e.w ELSE p.w
WellFormed(e, p) ==
  /\ Len(e.x) = Len(e.out) /\ Len(W(e, p)) = Len(e.x)
  /\ \A i \in 1..Len(e.x) : Fits(circ[e.c], e.x[i], W(e, p)[i])
(* the claimed outputs are those of the circuit *)
True(e, p) == WellFormed(e, p) /\ OutputsQ(circ[e.c], e.x, W(e, p)) = ModVV(e.out)
(* an interactive verifier sees vectors up to trailing zeros *)
RECURSIVE Strip(_)
Strip(v) == IF v # <<>> /\ v[Len(v)] = 0 THEN Strip(SubSeq(v, 1, Len(v) - 1)) ELSE v
Full(v, n) == [i \in 1..n |-> IF i <= Len(v) THEN v[i] ELSE 0]
TrueUpToZeros(e, p) ==
  /\ Len(e.x) = Len(e.out) /\ Len(W(e, p)) = Len(e.x)
  /\ LET c == circ[e.c] IN
     \A i \in 1..Len(e.x) :
       /\ Len(Strip(e.x[i])) <= c.ni /\ Len(Strip(W(e, p)[i])) <= c.na
       /\ LET v == EvalQ(c, Full(e.x[i], c.ni), Full(W(e, p)[i], c.na)) IN Strip(v[Len(v)]) = Strip(ModV(e.out[i]))
MustAccept(e, p) == circ[p.c] = circ[p.hc] /\ Same(e, p) /\ True(e, p)
MustReject(e, p) ==
  IF e.coins = "fs" THEN ~True(e, p) \/ ~Same(e, p) ELSE ~TrueUpToZeros(e, p) \/ e.par # p.par

Ok(e) ==
  CASE e.ev = "circuit" -> TRUE
    [] e.ev = "eval" -> PROP = "complete" =>
         e.res = "ok" /\ ModVV(e.layers) = EvalQ(circ[e.c], e.x, e.w)
    [] e.ev = "prove" ->
         (PROP = "complete" /\ e.c = e.hc) => e.res = "ok" /\ ModVV(e.out) = OutputsQ(circ[e.c], e.x, e.w)
    [] e.ev = "verify" ->
         LET p == proof[e.p] IN
         /\ (PROP = "complete" /\ MustAccept(e, p)) => e.res = "accept"
         /\ (PROP = "sound" /\ MustReject(e, p)) => Rejected(e.res)
    [] e.ev = "tamper" -> (PROP = "sound" /\ ~e.same) => Rejected(e.res)
    [] OTHER -> FALSE
Step ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     IF e.inst # inst
     THEN circ' = <<>> /\ proof' = <<>> /\ inst' = e.inst /\ UNCHANGED <<l, bad>>
     ELSE /\ l' = l + 1 /\ UNCHANGED inst
          /\ bad' = IF Ok(e) THEN bad ELSE Append(bad, l)
          /\ circ' = IF e.ev = "circuit" THEN Put(circ, e.c, [ni |-> e.ni, na |-> e.na, layers |-> e.layers]) ELSE circ
          /\ proof' = IF e.ev = "prove" THEN Put(proof, e.p, [kind |-> e.kind, c |-> e.c, hc |-> e.hc, x |-> e.x, w |-> e.w, out |-> e.out, par |-> e.par]) ELSE proof
Spec == Init /\ [][Step]_vars
Report == (l = Len(Trace) + 1) => PrintT("@BAD@" \o ToJson([bad |-> bad, n |-> Len(Trace)]))
TypeOK == Len(bad) <= Len(Trace)
=============================================================================
