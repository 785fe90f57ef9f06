------------------------------ MODULE CodecMC --------------------------------
(* Every encoding is self-delimiting, so streams read back as ReadBack says.    *)
EXTENDS Codec, TLC, IOUtils
Big == IOEnv.LEVEL = "1"
A == [k |-> "atom", n |-> 1]
A2 == [k |-> "atom", n |-> 2]
Opt(t) == [k |-> "opt", of |-> t]
Vec(t) == [k |-> "vec", of |-> t]
Rec(ts) == [k |-> "rec", fs |-> ts]
Types == {A, A2, Opt(A), Vec(A), Vec(Opt(A)), Opt(Vec(A)), Rec(<<A, Vec(A)>>), Rec(<<Opt(A), A2>>), Vec(Rec(<<A, Opt(A)>>))}
  \cup (IF Big THEN {Vec(Vec(A)), Rec(<<Vec(A), Vec(A)>>), Vec(Vec(Opt(A)))} ELSE {})
RECURSIVE Values(_), Product(_)
Product(ts) == IF ts = <<>> THEN {<<>>} ELSE {<<v>> \o r : v \in Values(Head(ts)), r \in Product(Tail(ts))}
Values(t) ==
  CASE t.k = "atom" -> [1..t.n -> 0..1]
    [] t.k = "opt"  -> {<<>>} \cup {<<v>> : v \in Values(t.of)}
    [] t.k = "vec"  -> UNION {[1..n -> Values(t.of)] : n \in 0..2}
    [] t.k = "rec"  -> Product(t.fs)
VARIABLES t1, v1, t2, v2, cut
vars == <<t1, v1, t2, v2, cut>>
Init == /\ t1 \in Types /\ t2 \in Types /\ v1 \in Values(t1) /\ v2 \in Values(t2)
        /\ cut \in 0..Len(Encode(t1, v1) \o Encode(t2, v2))
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Read(b) ==
  LET d == Decode(t1, b) IN
  IF ~d.ok THEN <<[r |-> "error", used |-> 0]>>
  ELSE LET f == Decode(t2, Drop(b, d.n)) IN
       <<[r |-> "ok", used |-> d.n]>> \o (IF f.ok THEN <<[r |-> "ok", used |-> f.n]>> ELSE <<[r |-> "error", used |-> 0]>>)
b1 == Encode(t1, v1)
b2 == Encode(t2, v2)
RoundTrip == Decode(t1, b1 \o b2) = Got(v1, Len(b1))
Streams == Read(SubSeq(b1 \o b2, 1, cut)) = ReadBack(<<Len(b1), Len(b2)>>, cut)
Injective == (t1 = t2 /\ b1 = b2) => ToString(v1) = ToString(v2)
==============================================================================
