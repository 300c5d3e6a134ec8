------------------------------ MODULE Foreign -------------------------------
(***************************************************************************)
(* What an archive which something else has written means: its members are *)
(* the entries of a tree, relative to the top-level directory.             *)
(***************************************************************************)
EXTENDS RefFS

Entry(m) == [k |-> m.k, m |-> m.m, u |-> m.u, g |-> m.g, mt |-> {m.mt}, c |-> m.c]

RECURSIVE Fold(_, _)
Fold(t, ms) == IF ms = <<>> THEN t ELSE Fold(Put(t, Head(ms).p, Entry(Head(ms))), Tail(ms))

\* The top-level directory is the first member
TreeOf(ms) == Fold([p \in {Root} |-> Entry(ms[1])], Tail(ms))
=============================================================================
