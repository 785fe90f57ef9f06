-------------------------------- MODULE Sim ---------------------------------
(* Verification equations as transitions.  With the verifier's coins known    *)
(* and group elements written as discrete logarithms, a transcript can be    *)
(* built message by message: everything is chosen freely except one word per *)
(* verification equation, which the equation determines.  Such a transcript   *)
(* must be accepted; one in which determined words are off by an error        *)
(* violates exactly the equations they belong to and must be rejected.        *)
(* The error is the pair `hit`: the numbers of the equations that are broken. *)
EXTENDS FpArith, TLC, Json, IOUtils, FiniteSets
In == ndJsonDeserialize(IOEnv.INST)
VARIABLES inst, hit, pc, v, pf, k, m, n
simvars == <<inst, hit, pc, v, pf, k, m, n>>
\* inst: instance; v: registers; pf: words of the proof by field; k, m: coins and free words used; n: equations so far
I == In[inst]
P == I.p
Coin(i) == I.coins[k + i]
Free(i) == I.rnd[((m + i) % Len(I.rnd)) + 1] % P
NonZero(i) == 1 + (I.rnd[((m + i) % Len(I.rnd)) + 1] % (P - 1))
\* the word determined by the i-th equation of this step
Off(i) == IF (n + i) \in hit.at THEN (IF (n + i) = hit.first THEN hit.by ELSE P - hit.by) ELSE 0
Det(i, x) == (x + Off(i)) % P
Has(f, x) == x \in DOMAIN f
Put(f, name, words) == [x \in DOMAIN f \cup {name} |-> IF x = name THEN (IF name \in DOMAIN f THEN f[name] ELSE <<>>) \o words ELSE f[x]]
RECURSIVE PutAll(_, _)
PutAll(f, l) == IF l = <<>> THEN f ELSE PutAll(Put(f, l[1][1], l[1][2]), Tail(l))
Set(f, name, x) == [y \in DOMAIN f \cup {name} |-> IF y = name THEN x ELSE f[y]]
RECURSIVE SetAll(_, _)
SetAll(f, l) == IF l = <<>> THEN f ELSE SetAll(Set(f, l[1][1], l[1][2]), Tail(l))
Go(next, regs, words, dk, dm, dn) ==
  /\ pc' = next /\ v' = TLCEval(SetAll(v, regs)) /\ pf' = TLCEval(PutAll(pf, words))
  /\ k' = k + dk /\ m' = m + dm /\ n' = n + dn /\ UNCHANGED <<inst, hit>>
MaxEq == atoi(IOEnv.MAXEQ)
\* broken equations: none, one, or two with opposite errors
Hits == LET one(e, b) == [at |-> {e}, first |-> e, by |-> b]
        IN {[at |-> {}, first |-> 0, by |-> 0]} \cup {one(e, 1) : e \in 1 .. MaxEq}
Pairs(d) == {[at |-> {e, e + d}, first |-> e, by |-> 1] : e \in 1 .. MaxEq - d}
SimInit(start) ==
  /\ inst \in 1 .. Len(In) /\ hit \in Hits \cup UNION {Pairs(d) : d \in 1 .. atoi(IOEnv.DIST)}
  /\ pc = start /\ v = [x \in {} |-> 0] /\ pf = [x \in {} |-> <<>>] /\ k = 0 /\ m = hit.first /\ n = 0
\* a sequence with its length in front
Vec(s) == <<Len(s)>> \o s
RECURSIVE Dot(_, _, _, _)
Dot(a, b, i, p) == IF i > Len(a) \/ i > Len(b) THEN 0 ELSE (a[i] * b[i] + Dot(a, b, i + 1, p)) % p
Inner(a, b) == Dot(a, b, 1, P)
RECURSIVE Prod(_, _)
Prod(s, p) == IF s = <<>> THEN 1 ELSE (s[1] * Prod(Tail(s), p)) % p
RECURSIVE CeilLog(_)
CeilLog(x) == IF x <= 1 THEN 0 ELSE 1 + CeilLog((x + 1) \div 2)
\* the value eq(r, bits of j), the first coordinate standing for the highest bit
RECURSIVE EqVec(_)
EqVec(r) == IF r = <<>> THEN <<1>>
            ELSE LET rest == TLCEval(EqVec(Tail(r)))
                 IN [j \in 1 .. 2 * Len(rest) |-> IF j <= Len(rest) THEN ((P + 1 - r[1]) * rest[j]) % P ELSE (r[1] * rest[j - Len(rest)]) % P]
EqXY(a, b) == Prod([i \in 1 .. Len(a) |-> ((P + 1 - a[i]) * (P + 1 - b[i]) + a[i] * b[i]) % P], P)
Ones(c) == [i \in 1 .. c |-> 0]
\* emitted once the transcript is complete; an error in an equation that the instance does not have is no transcript
Emit(words) == (pc = "done" /\ \A e \in hit.at : e <= n) =>
                 PrintT("@SIM@" \o ToJson([inst |-> inst, hit |-> hit.at, eqs |-> n, coins |-> k, words |-> words]))
==============================================================================
