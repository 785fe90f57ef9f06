------------------------------- MODULE CBMT ----------------------------------
(* Complete binary Merkle trees.  n leaves occupy the nodes n-1 .. 2n-2 of a   *)
(* heap, every other node k is the merge of the nodes 2k+1 and 2k+2, node 0    *)
(* is the root.  The merge is free: it is the term "(l,r)".                    *)
EXTENDS Integers, Sequences, TLC
Merge(l, r) == "(" \o l \o "," \o r \o ")"
RECURSIVE Node(_, _)
Node(leaves, k) == LET n == Len(leaves) IN IF k >= n - 1 THEN leaves[k - n + 2] ELSE Merge(Node(leaves, 2 * k + 1), Node(leaves, 2 * k + 2))
Nodes(leaves) == [k \in 1..(2 * Len(leaves) - 1) |-> Node(leaves, k - 1)]
RootOf(leaves) == IF Len(leaves) = 0 THEN "" ELSE Node(leaves, 0)
Parent(k) == IF k = 0 THEN 0 ELSE (k - 1) \div 2
IsLeft(k) == k % 2 = 1
Sibling(k) == IF k = 0 THEN 0 ELSE IF IsLeft(k) THEN k + 1 ELSE k - 1
RECURSIVE Ancestry(_)
\* the nodes from k up to, not including, the root
Ancestry(k) == IF k = 0 THEN <<>> ELSE <<k>> \o Ancestry(Parent(k))
Depth(k) == Len(Ancestry(k))
PathOf(leaves, k) == LET a == Ancestry(k) IN [i \in 1..Len(a) |-> Node(leaves, Sibling(a[i]))]
(* what a proof (k, lemmas) says about a leaf: lemmas are merged in on the side *)
(* the position dictates, and the path has to end at the root: one lemma more   *)
(* or less speaks about another position, or passes an inner node off as a leaf *)
RECURSIVE Fold(_, _, _, _)
Fold(k, lemmas, i, acc) == IF i > Len(lemmas) THEN acc
  ELSE Fold(Parent(k), lemmas, i + 1, IF IsLeft(k) THEN Merge(acc, lemmas[i]) ELSE Merge(lemmas[i], acc))
Accepts(k, lemmas, root, leaf) == Len(lemmas) = Depth(k) /\ Fold(k, lemmas, 1, leaf) = root
==============================================================================
