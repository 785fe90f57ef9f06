---------------------------- MODULE MarlinPCTrace ----------------------------
(* Recorded histories of marlin's polynomial commitment: keys, commitments,    *)
(* openings and verdicts must be those of MarlinPC.tla.  Blinding polynomials  *)
(* are read off the returned randomness.                                       *)
EXTENDS MarlinPC, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, K, md, fs, bad
vars == <<l, K, md, fs, bad>>
NoKey == [p |-> 0, beta |-> 0, g |-> 0, gg |-> 0, h |-> 0, sd |-> 0]
Init == l = 1 /\ K = NoKey /\ md = 0 /\ fs = <<>> /\ bad = <<>>
E == Trace[l]
Mark(ok) == bad' = IF ok THEN bad ELSE Append(bad, l)
KeyOf(e) == [p |-> e.p, beta |-> Frac(e.bh, e.h, e.p), g |-> e.pg[1], gg |-> e.pgg[1], h |-> e.h, sd |-> 0]
KeyOK(e, k) == /\ Len(e.pg) >= e.md + 1 /\ e.pg = PowersOf(k, k.g, Len(e.pg))
               /\ Len(e.pgg) >= e.md + 1 /\ e.pgg = PowersOf(k, k.gg, Len(e.pgg))
TrimOK(e) == IF e.sd > md THEN e.res # "ok"
  ELSE /\ e.res = "ok" /\ e.csd = e.sd
       /\ Len(e.pg) = e.sd + 1 /\ e.pg = PowersOf(K, K.g, e.sd + 1)
       /\ Len(e.pgg) >= e.sd + 1 /\ e.pgg = PowersOf(K, K.gg, Len(e.pgg))
       /\ e.vk = [g |-> K.g, gg |-> K.gg, h |-> K.h, bh |-> Mul(K.h, K.beta, K.p), sd |-> e.sd]
Rec(f, o) == [id |-> f.id, c |-> f.c, b |-> f.b, h |-> f.h, r |-> o.r, s |-> o.sr]
CommitOK(e) ==
  IF ~(\A i \in 1..Len(e.fs) : CanCommit(K, e.fs[i]) /\ (e.fs[i].h >= 0 => e.rng = 1)) THEN e.res # "ok"
  ELSE /\ e.res = "ok" /\ Len(e.out) = Len(e.fs)
       /\ \A i \in 1..Len(e.fs) : LET f == e.fs[i]  o == e.out[i]  q == Rec(f, o) IN
            /\ o.id = f.id /\ o.d = f.b
            /\ o.c = CommOf(K, q) /\ o.s = ShiftedOf(K, q)
            /\ Deg(o.r) <= (IF f.h < 0 THEN 0 ELSE f.h) /\ Deg(o.sr) <= (IF f.h < 0 THEN 0 ELSE f.h)
            /\ f.h < 0 => Deg(o.r) = 0 /\ At(o.r, 1) = 0
            /\ (f.h < 0 \/ f.b < 0) => Deg(o.sr) = 0 /\ At(o.sr, 1) = 0
PickAll(sel) == [i \in 1..Len(sel) |-> fs[sel[i]]]
\* sorted sequence of a finite set of integers
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
\* batch opening: per point (ascending), the polynomials asked for in label order
AtPoint(qs, z) == LET ids == Sorted({fs[qs[i].k].id : i \in {j \in 1..Len(qs) : qs[j].z = z}}) IN
  [i \in 1..Len(ids) |-> CHOOSE f \in {fs[k] : k \in 1..Len(fs)} : f.id = ids[i]]
BOpenOK(e) == LET pts == Sorted({e.qs[i].z : i \in 1..Len(e.qs)}) IN
  /\ e.res = "ok" /\ Len(e.pfs) = Len(pts)
  /\ \A j \in 1..Len(pts) : e.pfs[j] = OpenOf(K, AtPoint(e.qs, pts[j]), pts[j], e.xi)
BVerdict(e) ==
  LET pts == Sorted({e.qs[i].z : i \in 1..Len(e.qs)})
      Ids(z) == Sorted({e.qs[i].id : i \in {j \in 1..Len(e.qs) : e.qs[j].z = z}})
      HasC(id) == \E i \in 1..Len(e.comms) : e.comms[i].id = id
      HasV(id, z) == \E i \in 1..Len(e.vals) : e.vals[i].id = id /\ e.vals[i].z = z
      C(id) == e.comms[CHOOSE i \in 1..Len(e.comms) : e.comms[i].id = id]
      V(id, z) == e.vals[CHOOSE i \in 1..Len(e.vals) : e.vals[i].id = id /\ e.vals[i].z = z].v
      Cls(z) == LET ids == Ids(z) IN [i \in 1..Len(ids) |-> [c |-> C(ids[i]).c, s |-> C(ids[i]).s, d |-> C(ids[i]).d, v |-> V(ids[i], z)]]
  IN /\ Len(e.pfs) = Len(pts)
     /\ \A j \in 1..Len(pts) : \A i \in 1..Len(Ids(pts[j])) : HasC(Ids(pts[j])[i]) /\ HasV(Ids(pts[j])[i], pts[j])
     /\ \A j \in 1..Len(pts) : Check(K, Cls(pts[j]), pts[j], e.pfs[j], e.xi)
Step ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE E.ev = "key" -> /\ K' = (IF E.res = "ok" THEN KeyOf(E) ELSE NoKey) /\ md' = E.md /\ fs' = <<>>
                          /\ Mark(E.res = "ok" /\ (KeyOK(E, KeyOf(E)) = TRUE))
       [] E.ev = "trim" -> /\ K' = (IF E.res = "ok" THEN [K EXCEPT !.sd = E.sd] ELSE K) /\ UNCHANGED md
                           /\ fs' = <<>>
                           /\ Mark(TrimOK(E) = TRUE)
       [] E.ev = "commit" -> /\ UNCHANGED <<K, md>>
                             /\ fs' = (IF E.res = "ok" THEN [i \in 1..Len(E.fs) |-> Rec(E.fs[i], E.out[i])] ELSE fs)
                             /\ Mark(CommitOK(E) = TRUE)
       [] E.ev = "open" -> /\ UNCHANGED <<K, md, fs>>
                           /\ Mark(E.res = "ok" /\ [w |-> E.w, rv |-> E.rv] = OpenOf(K, PickAll(E.sel), E.z, E.xi))
       [] E.ev = "check" -> /\ UNCHANGED <<K, md, fs>>
                            /\ Mark((E.res = "accept") = Check(K, E.cls, E.z, [w |-> E.w, rv |-> E.rv], E.xi))
       [] E.ev = "bopen" -> UNCHANGED <<K, md, fs>> /\ Mark(BOpenOK(E) = TRUE)
       [] E.ev = "bcheck" -> UNCHANGED <<K, md, fs>> /\ Mark((E.res = "accept") = BVerdict(E))
Spec == Init /\ [][Step]_vars
Report == (l = Len(Trace) + 1) => PrintT("@BAD@" \o ToJson([bad |-> bad, n |-> Len(Trace)]))
TypeOK == l \in 1..(Len(Trace) + 1)
==============================================================================
