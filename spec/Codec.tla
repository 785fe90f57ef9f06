------------------------------- MODULE Codec ---------------------------------
(* Objects as bytes. Encode writes a value of a type; Decode reads one from the *)
(* front of a byte sequence. Types: an atom of so many bytes, an option (a flag *)
(* byte, then the value), a vector (a length byte, then the values), a record.  *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
RECURSIVE Encode(_, _), Decode(_, _), DecodeAll(_, _, _)
Encode(t, v) ==
  CASE t.k = "atom" -> v
    [] t.k = "opt"  -> IF v = <<>> THEN <<0>> ELSE <<1>> \o Encode(t.of, v[1])
    [] t.k = "vec"  -> <<Len(v)>> \o Flat([i \in 1..Len(v) |-> Encode(t.of, v[i])])
    [] t.k = "rec"  -> Flat([i \in 1..Len(v) |-> Encode(t.fs[i], v[i])])
Fail == [ok |-> FALSE, v |-> <<>>, n |-> 0]
Got(v, n) == [ok |-> TRUE, v |-> v, n |-> n]
Drop(b, n) == SubSeq(b, n + 1, Len(b))
(* values of the types ts, one after the other *)
DecodeAll(ts, b, acc) ==
  IF ts = <<>> THEN acc
  ELSE LET d == Decode(Head(ts), b)
       IN IF ~d.ok THEN Fail ELSE DecodeAll(Tail(ts), Drop(b, d.n), Got(Append(acc.v, d.v), acc.n + d.n))
Decode(t, b) ==
  CASE t.k = "atom" -> IF Len(b) < t.n THEN Fail ELSE Got(SubSeq(b, 1, t.n), t.n)
    [] t.k = "opt"  -> IF b = <<>> THEN Fail
                       ELSE IF b[1] = 0 THEN Got(<<>>, 1)
                       ELSE IF b[1] # 1 THEN Fail
                       ELSE LET d == Decode(t.of, Tail(b)) IN IF d.ok THEN Got(<<d.v>>, d.n + 1) ELSE Fail
    [] t.k = "vec"  -> IF b = <<>> THEN Fail
                       ELSE LET d == DecodeAll([i \in 1..b[1] |-> t.of], Tail(b), Got(<<>>, 0))
                            IN IF d.ok THEN Got(d.v, d.n + 1) ELSE Fail
    [] t.k = "rec"  -> DecodeAll(t.fs, b, Got(<<>>, 0))
(* What reading the objects of a stream one after the other gives when only its *)
(* first cut bytes are there: lens are the numbers of bytes of the objects.     *)
RECURSIVE ReadBack(_, _)
ReadBack(lens, cut) ==
  IF lens = <<>> THEN <<>>
  ELSE IF Head(lens) > cut THEN <<[r |-> "error", used |-> 0]>>
  ELSE <<[r |-> "ok", used |-> Head(lens)]>> \o ReadBack(Tail(lens), cut - Head(lens))
==============================================================================
