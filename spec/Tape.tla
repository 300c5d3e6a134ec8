-------------------------------- MODULE Tape --------------------------------
(***************************************************************************)
(* The tape as a sequence of records and the index as a fold over it.      *)
(*                                                                         *)
(* A record is [a, act, p, f, ...fields]: its address in blocks, what it   *)
(* does ("create", "update" the content, "meta" data, "move" from f to p,  *)
(* "delete"), and the header fields and content which it carries.          *)
(* An index maps paths to [x |-> record whose fields are current,          *)
(* y |-> record whose content is current, last |-> address of the most     *)
(* recent record that mentions the entry].                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Set(idx, p, v) == [q \in DOMAIN idx \cup {p} |-> IF q = p THEN v ELSE idx[q]]
Drop(idx, p) == [q \in DOMAIN idx \ {p} |-> idx[q]]

Apply(idx, r) ==
  CASE r.act = "create" -> Set(idx, r.p, [x |-> r, y |-> r, last |-> r.a])
    [] r.act = "update" -> IF r.p \in DOMAIN idx THEN Set(idx, r.p, [x |-> r, y |-> r, last |-> r.a]) ELSE idx
    [] r.act = "meta"   -> IF r.p \in DOMAIN idx THEN Set(idx, r.p, [x |-> r, y |-> idx[r.p].y, last |-> r.a]) ELSE idx
    [] r.act = "move"   -> IF r.f \in DOMAIN idx
                           THEN Set(IF r.f = r.p THEN idx ELSE Drop(idx, r.f), r.p, [idx[r.f] EXCEPT !.last = r.a])
                           ELSE idx
    [] r.act = "delete" -> Drop(idx, r.p)

RECURSIVE FoldFrom(_, _, _)
FoldFrom(idx, rs, i) == IF i > Len(rs) THEN idx ELSE FoldFrom(Apply(idx, rs[i]), rs, i + 1)
FoldAll(idx, rs) == FoldFrom(idx, rs, 1)

NoIndex == [q \in {} |-> 0]
Rebuild(rs) == FoldAll(NoIndex, rs)

\* Where the content of an entry starts
Pos(idx, p) == idx[p].y.a
=============================================================================
