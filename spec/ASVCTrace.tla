------------------------------ MODULE ASVCTrace ------------------------------
(* Recorded histories: every key element, commitment, proof and verdict must   *)
(* be the one of ASVC.tla.  K.tau and the generators are read off the keys.    *)
EXTENDS ASVC, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, K, vec, c, held, last, bad
vars == <<l, K, vec, c, held, last, bad>>
NoKey == [p |-> 0, n |-> 0, om |-> 0, tau |-> 0, g |-> 0, h |-> 0]
Init == l = 1 /\ K = NoKey /\ vec = <<>> /\ c = 0 /\ held = <<>> /\ last = [pts |-> <<>>, w |-> 0] /\ bad = <<>>
E == Trace[l]
KeyOf(e) == [p |-> e.p, n |-> e.n, om |-> e.om, tau |-> Frac(e.pg1[2], e.pg1[1], e.p), g |-> e.pg1[1], h |-> e.pg2[1]]
KeyOK(e, k) ==
  /\ e.res = "ok" /\ e.n >= e.n0 /\ (e.n > 1 => e.n \div 2 < e.n0)
  /\ GoodKey(k)
  /\ e.pg1 = Powers(k) /\ e.vg1 = Powers(k) /\ e.vg2 = PowersH(k) /\ e.pg2 = PowersH(k)
  /\ e.lag = [i \in 1..e.n |-> Mul(k.g, Lagrange(k, i - 1), e.p)]
  /\ e.a = [i \in 1..e.n |-> UpdA(k, i - 1)] /\ e.u = [i \in 1..e.n |-> UpdU(k, i - 1)]
  /\ e.va = Mul(k.g, ATau(k), e.p)
\* proofs the user holds, as a sequence of [i, w]; the later entry wins
Held(i) == held[CHOOSE k \in 1..Len(held) : held[k].i = i]
Mark(ok) == bad' = IF ok THEN bad ELSE Append(bad, l)
UpdVec(i, d) == [j \in 1..(IF i < Len(vec) THEN Len(vec) ELSE i + 1) |-> IF j = i + 1 THEN Add(ValueAt(vec, i), d, K.p) ELSE ValueAt(vec, j - 1)]
Step ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE E.ev = "key" -> /\ E.res = "ok" => K' = KeyOf(E)
                          /\ E.res # "ok" => K' = NoKey
                          /\ Mark(E.res = "ok" /\ (KeyOK(E, KeyOf(E)) = TRUE))
                          /\ vec' = <<>> /\ c' = 0 /\ held' = <<>> /\ last' = [pts |-> <<>>, w |-> 0]
       [] E.ev = "commit" -> /\ vec' = E.v /\ c' = E.c /\ held' = <<>> /\ UNCHANGED <<K, last>>
                             /\ Mark(E.res = "ok" /\ E.c = CommitOf(K, E.v))
       [] E.ev = "track" -> /\ held' = Append(SelectSeq(held, LAMBDA x : x.i # E.i), [i |-> E.i, w |-> E.w])
                            /\ UNCHANGED <<K, vec, c, last>>
                            /\ Mark(E.res = "ok" /\ E.w = ProofOf(K, vec, <<E.i>>))
       [] E.ev = "upd" -> /\ vec' = UpdVec(E.i, E.d) /\ c' = E.c /\ UNCHANGED <<K, last>>
                          /\ held' = E.ws
                          /\ Mark(/\ E.res = "ok" /\ E.c = UpdCommit(K, c, E.i, E.d) /\ E.c = CommitOf(K, UpdVec(E.i, E.d))
                                  /\ Len(E.ws) = Len(held)
                                  /\ \A k \in 1..Len(held) : E.ws[k].i = held[k].i /\ E.ws[k].w = UpdProof(K, held[k].w, held[k].i, E.i, E.d)
                                                              /\ E.ws[k].w = ProofOf(K, UpdVec(E.i, E.d), <<held[k].i>>))
       [] E.ev = "prove" -> /\ last' = [pts |-> E.pts, w |-> E.w] /\ UNCHANGED <<K, vec, c, held>>
                            /\ Mark(E.res = "ok" /\ E.w = ProofOf(K, vec, E.pts))
       [] E.ev = "agg" -> /\ last' = [pts |-> E.pts, w |-> E.w] /\ UNCHANGED <<K, vec, c, held>>
                          /\ Mark(/\ E.res = "ok" /\ E.w = Aggregate(K, E.pts, [j \in 1..Len(E.pts) |-> Held(E.pts[j]).w])
                                  /\ E.w = ProofOf(K, vec, E.pts))
       [] E.ev = "verify" -> /\ UNCHANGED <<K, vec, c, held, last>>
                             /\ Mark((E.res = "accept") = Verify(K, Add(c, E.dc, K.p), E.pts, E.vals, Add(last.w, E.dw, K.p)))
       [] E.ev = "upk" -> /\ UNCHANGED <<K, vec, c, held, last>>
                          /\ Mark((E.res = "accept") = VerifyUpk(K, E.i, Add(UpdA(K, E.j), E.da, K.p), Add(UpdU(K, E.j), E.du, K.p)))
Spec == Init /\ [][Step]_vars
Report == (l = Len(Trace) + 1) => PrintT("@BAD@" \o ToJson([bad |-> bad, n |-> Len(Trace)]))
TypeOK == l \in 1..(Len(Trace) + 1)
==============================================================================
