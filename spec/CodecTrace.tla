----------------------------- MODULE CodecTrace ------------------------------
(* Checks objects written and read back by the real code. *)
EXTENDS Codec, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, len, beh, bad
vars == <<l, len, beh, bad>>
Init == l = 1 /\ len = <<>> /\ beh = <<>> /\ bad = <<>>
StreamOk(e) ==
  LET want == ReadBack([i \in 1..Len(e.ids) |-> len[e.ids[i]]], e.cut)
  IN /\ Len(e.got) = Len(want)
     /\ \A i \in 1..Len(want) :
          /\ e.got[i].r = want[i].r
          /\ want[i].r = "ok" => (e.got[i].used = want[i].used /\ e.got[i].same /\ e.got[i].beh = beh[e.ids[i]])
Ok(e) ==
  CASE e.ev = "obj" -> e.size = e.len
    [] e.ev = "cuts" -> \A i \in 1..Len(e.at) : e.at[i] < len[e.id] => e.res[i] = "error"
    [] e.ev = "stream" -> StreamOk(e)
    [] e.ev = "altered" -> ~e.eq /\ e.back
Step ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     /\ l' = l + 1
     /\ IF e.ev = "obj"
        THEN /\ len' = IF e.id = 1 THEN <<e.len>> ELSE Append(len, e.len)
             /\ beh' = IF e.id = 1 THEN <<e.beh>> ELSE Append(beh, e.beh)
        ELSE UNCHANGED <<len, beh>>
     /\ bad' = IF Ok(e) THEN bad ELSE Append(bad, l)
Spec == Init /\ [][Step]_vars
Report == (l = Len(Trace) + 1) => PrintT("@BAD@" \o ToJson([bad |-> bad, n |-> Len(Trace)]))
TypeOK == Len(bad) <= Len(Trace)
==============================================================================
