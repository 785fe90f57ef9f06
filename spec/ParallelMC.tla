---- MODULE ParallelMC ----
EXTENDS Parallel, IOUtils
MaxLen == IF IOEnv.LEVEL = "1" THEN 6 ELSE 5
Ident == atoi(IOEnv.IDENT)
Drawing == IOEnv.DRAW = "1"
Init == \E n \in 2 .. MaxLen : Start([k \in 1 .. n |-> 2 * k + 1])
Spec == Init /\ [][PNext]_pvars
TypeOK == drawn \in 0 .. MaxLen
====
