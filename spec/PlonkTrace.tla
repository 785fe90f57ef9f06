------------------------------ MODULE PlonkTrace -----------------------------
(* Trace validation for PLONK: composed selectors, wires and permutation, and  *)
(* every verdict, against the ideal verifier of PlonkCS.                       *)
EXTENDS PlonkCS, TLC, Json, IOUtils, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP
VARIABLES l, key, proof, bad
vars == <<l, key, proof, bad>>
Init == l = 1 /\ key = <<>> /\ proof = <<>> /\ bad = <<>>
Put(f, i, v) == [j \in (DOMAIN f) \cup {i} |-> IF j = i THEN v ELSE f[j]]
Rejected(r) == r \in {"reject", "error", "panic", "malformed"}

Ideal(e) ==
  /\ proof[e.p].k = e.k
  /\ proof[e.p].pi = e.pi
  /\ Satisfies(key[e.k], proof[e.p].w, e.pi)

(* positions are numbered slot * n + gate, 0-based; sig is the permutation's image list.       *)
(* A wire matters to its gate when some selector weighs it; the others may carry anything      *)
(* that the permutation agrees with.                                                          *)
Weighs(q, s) == CASE s = 1 -> q[1] # 0 [] s = 2 -> q[2] # 0 \/ q[5] # 0 [] s = 3 -> q[3] # 0 \/ q[5] # 0 [] OTHER -> q[4] # 0
Orbit(sig, p) == LET f[i \in 0..Len(sig)] == IF i = 0 THEN p ELSE sig[f[i - 1] + 1] IN {f[i] : i \in 0..Len(sig)}
Shape(e) == e.res = "ok" /\ e.n >= Len(e.calls) /\ Len(e.q) = e.n /\ Len(e.w) = e.n /\ Len(e.sig) = 4 * e.n
(* the relevant wires, with the variable each stands for, and the variables with a wire of each *)
Wired(e) ==
  LET R == Rows(e.calls) IN
  {x \in [g : 1..Len(e.calls), s : 1..4] : Weighs(R[x.g].q, x.s)}
ClassOf(e, x) == Row(e.calls[x.g]).v[x.s]
PosOf(e, x) == (x.s - 1) * e.n + x.g - 1
GatesComposed(e) ==
  LET R == Rows(e.calls) IN
  \A i \in 1..e.n : e.q[i] = IF i <= Len(e.calls) THEN Append(R[i].q, 1) ELSE <<0, 0, 0, 0, 0, 0, 0>>
(* every gate is there and all the wires of a variable are in one cycle of the permutation *)
ComposeSound(e) ==
  Shape(e) => LET X == Wired(e) IN
    /\ GatesComposed(e)
    /\ \A c \in {ClassOf(e, x) : x \in X} :
         LET P == {PosOf(e, x) : x \in {y \in X : ClassOf(e, y) = c}} IN P \subseteq Orbit(e.sig, CHOOSE p \in P : TRUE)
(* the honest wire table fits, and wires of different variables are not tied *)
ComposeComplete(e) ==
  Shape(e) /\
  LET X == Wired(e)  W == Wires(e.calls, e.vals, <<>>) IN
    /\ GatesComposed(e)
    /\ e.pi = Pis(e.calls)
    /\ \A x \in X : e.w[x.g][x.s] = W[x.g][x.s]
    /\ {e.sig[i] : i \in 1..(4 * e.n)} = 0..(4 * e.n - 1)
    /\ \A p \in 0..(4 * e.n - 1) : e.w[(p % e.n) + 1][(p \div e.n) + 1] = e.w[(e.sig[p + 1] % e.n) + 1][(e.sig[p + 1] \div e.n) + 1]
    /\ \A c \in {ClassOf(e, x) : x \in X} :
         LET p == CHOOSE p \in {PosOf(e, x) : x \in {y \in X : ClassOf(e, y) = c}} : TRUE
             O == Orbit(e.sig, p)
         IN \A x \in X : PosOf(e, x) \in O <=> ClassOf(e, x) = c

Ok(e) ==
  CASE e.ev = "compose" -> IF PROP = "complete" THEN ComposeComplete(e) ELSE ComposeSound(e)
    [] e.ev = "setup" -> PROP = "complete" => e.res = "ok"
    [] e.ev = "prove" -> (PROP = "complete" /\ Satisfies(key[e.k], Wires(e.calls, e.vals, e.ov), Pis(e.calls))) => e.res = "ok"
    [] e.ev = "verify" -> IF Ideal(e) THEN PROP = "complete" => e.res = "accept" ELSE PROP = "sound" => Rejected(e.res)
    [] e.ev = "tamper" -> (PROP = "sound" /\ ~e.same) => Rejected(e.res)
    [] OTHER -> FALSE
Step ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     /\ l' = l + 1
     /\ bad' = IF Ok(e) THEN bad ELSE Append(bad, l)
     /\ key' = IF e.ev = "setup" THEN Put(key, e.k, e.calls) ELSE key
     /\ proof' = IF e.ev = "prove" THEN Put(proof, e.p, [k |-> e.k, w |-> Wires(e.calls, e.vals, e.ov), pi |-> Pis(e.calls)]) ELSE proof
Spec == Init /\ [][Step]_vars
Report == (l = Len(Trace) + 1) => PrintT("@BAD@" \o ToJson([bad |-> bad, n |-> Len(Trace)]))
TypeOK == Len(bad) <= Len(Trace)
=============================================================================
