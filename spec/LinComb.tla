------------------------------- MODULE LinComb -------------------------------
(* Linear combinations as linear forms: a register machine whose registers     *)
(* hold forms (variable -> coefficient modulo P).  Registers 1..4 stand for    *)
(* LinearCombination values, 5..8 for ConstraintVar values.                    *)
EXTENDS Integers, Sequences
P == 97
NV == 22
V == 0..(NV - 1)
LCs == 1..4
CVs == 5..8
Regs == LCs \cup CVs
CC == 1000
NC == 1001
Zero == [v \in V |-> 0]
Unit(v) == [u \in V |-> IF u = v THEN 1 ELSE 0]
Lin(ca, fa, cb, fb, cv, v) == [u \in V |-> (ca * fa[u] + cb * fb[u] + (IF u = v THEN cv ELSE 0)) % P]

(* operators: arguments they use, kinds of registers (destination, a, b), number of ownership forms *)
(* s: the coefficients <<of a, of b, of the variable v>>, (CC, NC) the scalar argument or its negation *)
O(n, d, a, b, f, sa, sb, sv) == [n |-> n, d |-> d, a |-> a, b |-> b, f |-> f, s |-> <<sa, sb, sv>>]
Ops == {
  O("lc_zero", "L", "", "", 1, 0, 0, 0), O("lc_var", "L", "", "", 1, 0, 0, 1), O("lc_cvar", "L", "", "", 1, 0, 0, CC),
  O("lc_addv", "L", "L", "", 1, 1, 0, 1), O("lc_subv", "L", "L", "", 1, 1, 0, -1),
  O("lc_addcv", "L", "L", "", 1, 1, 0, CC), O("lc_subcv", "L", "L", "", 1, 1, 0, NC), O("lc_addassign", "L", "=", "", 1, 1, 0, CC),
  O("lc_neg", "L", "L", "", 1, -1, 0, 0), O("lc_mul", "L", "L", "", 1, CC, 0, 0), O("lc_mulassign", "L", "=", "", 1, CC, 0, 0),
  O("lc_negin", "L", "=", "", 1, -1, 0, 0), O("lc_dblin", "L", "=", "", 1, 2, 0, 0), O("lc_repl", "L", "L", "", 1, 1, 0, 0),
  O("lc_add", "L", "L", "L", 4, 1, 1, 0), O("lc_sub", "L", "L", "L", 4, 1, -1, 0),
  O("lc_addc", "L", "L", "L", 4, 1, CC, 0), O("lc_subc", "L", "L", "L", 4, 1, NC, 0),
  O("cv_addlc", "L", "C", "L", 2, 1, 1, 0), O("cv_sublc", "L", "C", "L", 2, 1, -1, 0),
  O("cv_zero", "C", "", "", 1, 0, 0, 0), O("cv_var", "C", "", "", 1, 0, 0, 1), O("cv_cvar", "C", "", "", 1, 0, 0, CC),
  O("cv_fromlc", "C", "L", "", 1, 1, 0, 0), O("cv_fromclc", "C", "L", "", 1, CC, 0, 0), O("cv_fromccv", "C", "C", "", 1, CC, 0, 0),
  O("cv_negin", "C", "=", "", 1, -1, 0, 0), O("cv_dblin", "C", "=", "", 1, 2, 0, 0),
  O("cv_addcv", "C", "C", "", 1, 1, 0, CC), O("cv_subcv", "C", "C", "", 1, 1, 0, NC), O("cv_addassign", "C", "=", "", 1, 1, 0, CC),
  O("cv_neg", "C", "C", "", 1, -1, 0, 0), O("cv_mul", "C", "C", "", 1, CC, 0, 0), O("cv_mulassign", "C", "=", "", 1, CC, 0, 0),
  O("cv_addv", "C", "C", "", 1, 1, 0, 1), O("cv_subv", "C", "C", "", 1, 1, 0, -1),
  O("cv_add", "C", "C", "C", 2, 1, 1, 0), O("cv_sub", "C", "C", "C", 2, 1, -1, 0),
  O("cv_addc", "C", "C", "C", 1, 1, CC, 0), O("cv_subc", "C", "C", "C", 1, 1, NC, 0) }
Op(n) == CHOOSE o \in Ops : o.n = n
Coef(s, c) == IF s = CC THEN c ELSE IF s = NC THEN -c ELSE s
(* e: [op, d, a, b, c, v, f] *)
Result(reg, e) ==
  LET o == Op(e.op) IN
  Lin(Coef(o.s[1], e.c), IF o.a = "=" THEN reg[e.d] ELSE IF o.a = "" THEN Zero ELSE reg[e.a],
      Coef(o.s[2], e.c), IF o.b = "" THEN Zero ELSE reg[e.b],
      Coef(o.s[3], e.c), e.v)
Apply(reg, e) == [reg EXCEPT ![e.d] = Result(reg, e)]
RegsOf(k) == IF k = "L" THEN LCs ELSE CVs

(* value under an assignment *)
RECURSIVE SumTo(_, _, _)
SumTo(f, x, n) == IF n < 0 THEN 0 ELSE (SumTo(f, x, n - 1) + f[n] * x[n]) % P
Value(f, x) == SumTo(f, x, NV - 1)
==============================================================================
