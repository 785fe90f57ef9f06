-------------------------------- MODULE CLIGen -------------------------------
(* Histories of commands and file edits for the real tool.  A history lives on *)
(* one or two schemes; now and then another circuit, a wrong argument, an      *)
(* unknown name.                                                               *)
EXTENDS CLI, Json, IOUtils
N == atoi(IOEnv.N)
HEAVY == IOEnv.HEAVY = "1"       \* with the hash circuit
R(S) == RandomElement(S)
One(seq) == seq[R(1..Len(seq))]
\* x, y, z and whether x * (y + 2) = z over the field, which no 64-bit product wraps around in
Small(i) == LET x == R(0..9)  y == R(0..9)  d == R({0, 0, 0, 1, -1, 7})  z == x * (y + 2) + d IN
            IF z < 0 THEN [a |-> <<ToString(x), ToString(y), ToString(x * (y + 2))>>, t |-> TRUE] ELSE [a |-> <<ToString(x), ToString(y), ToString(z)>>, t |-> d = 0]
Big == <<[a |-> <<"4294967296", "4294967294", "0">>, t |-> FALSE],
         [a |-> <<"2", "9223372036854775806", "0">>, t |-> FALSE],
         [a |-> <<"1", "18446744073709551615", "1">>, t |-> FALSE],
         [a |-> <<"1", "18446744073709551613", "18446744073709551615">>, t |-> TRUE],
         [a |-> <<"3", "6148914691236517203", "18446744073709551615">>, t |-> TRUE],
         [a |-> <<"0", "18446744073709551615", "0">>, t |-> TRUE],
         [a |-> <<"18446744073709551615", "0", "18446744073709551614">>, t |-> FALSE]>>
Wrong == <<<<"3", "x", "5">>, <<"3", "4">>, <<>>, <<"-1", "4", "18">>, <<"3", "4", "18446744073709551616">>, <<"1.5", "4", "9">>, <<"2", "3", "">>>>
Words == <<"iamsecret", "a", "hello world", "0", "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff">>
No == [op |-> "", scheme |-> "", circ |-> "", curve |-> "bls12_381", slot |-> "kept", args |-> <<>>, truth |-> TRUE, sane |-> TRUE, how |-> 0]
Circ(h) == IF HEAVY /\ R(1..2) = 1 THEN "hash" ELSE "mini"
\* a scheme of this history
Sch(h) == IF R(1..4) = 1 THEN h.b ELSE h.a
Slot(h) == IF R(1..4) = 1 THEN "kept" ELSE Key(Sch(h), Circ(h))
Prove(h) == LET c == Circ(h)  k == R(1..10) IN
  IF c = "hash" THEN [No EXCEPT !.op = "prove", !.scheme = h.a, !.circ = c, !.args = <<One(Words)>>]
  ELSE IF k = 1 THEN [No EXCEPT !.op = "prove", !.scheme = Sch(h), !.circ = c, !.args = One(Wrong), !.sane = FALSE]
  ELSE LET m == IF k < 4 THEN One(Big) ELSE Small(k) IN [No EXCEPT !.op = "prove", !.scheme = Sch(h), !.circ = c, !.args = m.a, !.truth = m.t]
Odd(h) == CASE R(1..4) = 1 -> [No EXCEPT !.op = R({"prove", "setup"}), !.scheme = "marlin", !.circ = "mini", !.args = <<"1", "1", "3">>]
            [] R(1..3) = 1 -> [No EXCEPT !.op = R({"prove", "setup"}), !.scheme = h.a, !.circ = "plus", !.args = <<"1", "1", "3">>]
            [] R(1..2) = 1 -> [No EXCEPT !.op = R({"prove", "setup"}), !.scheme = h.a, !.circ = "mini", !.curve = "bn_256", !.args = <<"1", "1", "3">>]
            [] OTHER -> [No EXCEPT !.op = "setup", !.scheme = "bulletproofs", !.circ = "mini"]
Op(h, i) ==
  LET k == R(1..40) IN
  CASE i = 1 -> [No EXCEPT !.op = "setup", !.scheme = h.a, !.circ = Circ(h)]
    [] i = 2 /\ ~HEAVY -> LET m == Small(i) IN IF m.t THEN [No EXCEPT !.op = "prove", !.scheme = h.a, !.circ = "mini", !.args = m.a] ELSE Prove(h)
    [] i = 7 /\ h.a = "bulletproofs" -> [No EXCEPT !.op = "relabel", !.slot = Key(h.a, "mini"), !.circ = "hash"]
    [] i \in {2, 3, 6} -> Prove(h)
    [] i \in {5, 8} \/ k <= 12 -> [No EXCEPT !.op = "verify", !.slot = IF R(1..3) = 1 THEN "kept" ELSE Key(h.a, Circ(h))]
    [] i = 4 \/ k <= 15 -> [No EXCEPT !.op = "keep", !.slot = Key(Sch(h), Circ(h))]
    [] k <= 21 -> Prove(h)
    [] k <= 24 -> [No EXCEPT !.op = "setup", !.scheme = Sch(h), !.circ = Circ(h)]
    [] k = 25 -> [No EXCEPT !.op = "drop", !.scheme = Sch(h), !.circ = Circ(h)]
    [] k = 26 -> Odd(h)
    [] k <= 28 -> [No EXCEPT !.op = "graft", !.slot = Key(Sch(h), Circ(h))]
    [] k <= 30 -> [No EXCEPT !.op = "restore", !.slot = Key(Sch(h), Circ(h))]
    [] k <= 33 -> [No EXCEPT !.op = "setrec", !.slot = Slot(h), !.how = R(0..5)]
    [] k = 34 -> [No EXCEPT !.op = "relabel", !.slot = Slot(h), !.circ = "hash"]
    [] k <= 36 -> [No EXCEPT !.op = "rescheme", !.slot = Slot(h), !.scheme = R({h.a, h.b, "groth16", "marlin"})]
    [] k = 37 -> [No EXCEPT !.op = "cut", !.slot = Slot(h), !.how = R(1..40)]
    [] k = 38 -> [No EXCEPT !.op = "flip", !.slot = Slot(h), !.how = R(0..40)]
    [] k = 39 -> [No EXCEPT !.op = "mangle", !.slot = Slot(h), !.how = R(0..9)]
    [] OTHER -> [No EXCEPT !.op = "erase", !.slot = Slot(h)]
Pair(i) == LET s == <<"groth16", "bulletproofs", "spartan_nizk", "spartan_snark">>  a == s[(i % (IF HEAVY THEN 3 ELSE 4)) + 1] IN [a |-> a, b |-> IF HEAVY THEN a ELSE R(Schemes)]
\* every edited or copied file is looked at right afterwards
RECURSIVE Whole(_, _, _)
Whole(h, i, n) == IF i > n THEN <<>> ELSE
  LET o == Op(h, i) IN
  (IF o.op \in Edits \cup {"graft", "restore", "drop"} THEN <<o, [No EXCEPT !.op = "verify", !.slot = IF o.op = "drop" THEN Key(o.scheme, o.circ) ELSE o.slot]>>
   ELSE IF o.op = "setup" /\ i > 1 THEN <<o, [No EXCEPT !.op = "verify", !.slot = IF Known(o.scheme, o.circ, o.curve) THEN Key(o.scheme, o.circ) ELSE "kept"]>>
   ELSE IF o.op = "prove" /\ o.sane /\ Known(o.scheme, o.circ, o.curve) /\ R(1..2) = 1 THEN <<o, [No EXCEPT !.op = "verify", !.slot = Key(o.scheme, o.circ)]>>
   ELSE <<o>>) \o Whole(h, i + 1, n)
\* the number 0 proved, then a file that is not hexadecimal (half a byte too long; other letters), then a statement that is no number
Fixed(s) == LET k == Key(s, "mini")
               prove == [No EXCEPT !.op = "prove", !.scheme = s, !.circ = "mini", !.args = <<"0", "5", "0">>]
               see == [No EXCEPT !.op = "verify", !.slot = k]
               edit(o, n) == [No EXCEPT !.op = o, !.slot = k, !.how = n]
           IN <<[No EXCEPT !.op = "setup", !.scheme = s, !.circ = "mini"], prove, edit("mangle", 8), see, prove, edit("mangle", 9), see,
                prove, edit("setrec", 2), see, prove, see>>
VARIABLES q
Init == q \in 1..N
Next == UNCHANGED q
Spec == Init /\ [][Next]_q
Emit == LET h == Pair(q) IN PrintT("@INST@" \o ToJson([ops |-> IF q <= 4 /\ ~HEAVY THEN Fixed(h.a) ELSE Whole(h, 1, IF HEAVY THEN 9 ELSE 14)]))
==============================================================================
