------------------------------ MODULE FpArith --------------------------------
(* Arithmetic modulo a prime p < 2^15 on 0..p-1 (products stay below 2^31).    *)
EXTENDS Integers, Sequences
RECURSIVE Pow(_, _, _)
Pow(a, e, p) == IF e = 0 THEN 1 ELSE LET h == Pow((a * a) % p, e \div 2, p) IN IF e % 2 = 1 THEN (a * h) % p ELSE h
Inv(a, p) == Pow(a, p - 2, p)
Mul(a, b, p) == (a * b) % p
Add(a, b, p) == (a + b) % p
Sub(a, b, p) == (a - b + p) % p
Frac(a, b, p) == (a * Inv(b, p)) % p
RECURSIVE SumSeq(_, _, _)
SumSeq(s, i, p) == IF i > Len(s) THEN 0 ELSE (s[i] + SumSeq(s, i + 1, p)) % p
Total(s, p) == SumSeq(s, 1, p)
RECURSIVE ProdSeq(_, _, _)
ProdSeq(s, i, p) == IF i > Len(s) THEN 1 ELSE (s[i] * ProdSeq(s, i + 1, p)) % p
Product(s, p) == ProdSeq(s, 1, p)
\* value of the polynomial with coefficients c, lowest first
RECURSIVE Horner(_, _, _, _)
Horner(c, i, x, p) == IF i > Len(c) THEN 0 ELSE (c[i] + x * Horner(c, i + 1, x, p)) % p
EvalPoly(c, x, p) == Horner(c, 1, x, p)
==============================================================================
