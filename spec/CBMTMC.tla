------------------------------- MODULE CBMTMC --------------------------------
(* Over every leaf list of up to MaxN leaves (equal leaves included), every    *)
(* position, and every choice of leaf, lemmas and root among the nodes of the  *)
(* tree and a foreign value: a proof is accepted exactly when it is the        *)
(* genuine path of the genuine leaf at that position.                          *)
EXTENDS CBMT
CONSTANT MaxN
VARIABLES n, leaves, k, leaf, lemmas, root
vars == <<n, leaves, k, leaf, lemmas, root>>
Values(ls) == {Node(ls, j) : j \in 0..(2 * Len(ls) - 2)} \cup {"x", ""}
Init == /\ n \in 1..MaxN
        /\ leaves \in [1..n -> (IF n <= 3 THEN {"a", "b", ""} ELSE {"a", "b"})]
        /\ k \in (n - 1)..(2 * n - 2)
        /\ leaf \in Values(leaves)
        /\ root \in {RootOf(leaves), "x", leaf}
        /\ lemmas = <<>>
\* a proof is put together lemma by lemma
Next == /\ Len(lemmas) < Depth(k) + (IF n <= 4 THEN 1 ELSE 0)
        /\ \E v \in Values(leaves) : lemmas' = Append(lemmas, v)
        /\ UNCHANGED <<n, leaves, k, leaf, root>>
Spec == Init /\ [][Next]_vars
Genuine == leaf = Node(leaves, k) /\ lemmas = PathOf(leaves, k)
Sound == root = RootOf(leaves) => (Accepts(k, lemmas, root, leaf) <=> Genuine)
Foreign == (Genuine /\ Depth(k) > 0 /\ root # RootOf(leaves)) => ~Accepts(k, lemmas, root, leaf)
==============================================================================
