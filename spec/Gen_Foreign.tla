---------------------------- MODULE Gen_Foreign -----------------------------
(***************************************************************************)
(* Generates archives and histories which go on from there: the first      *)
(* calls of a history are members of the archive.                          *)
(***************************************************************************)
EXTENDS Gen_FS, Foreign

CONSTANTS Members, Dup

AModes == {493, 420, 448, 384, 511, 365, 292, 1023, 2541}
MemberAt(p, k, h) == [Call("member", p) EXCEPT !.k = k, !.m = Rnd(AModes), !.u = Rnd({0, 1000, 65534}), !.g = Rnd({0, 100, 1000}), !.t = Rnd(0..8),
                                               !.c = IF k = "f" THEN Content(h) ELSE <<>>]

\* Entries which are neither files nor directories only if no calls follow. Members come after the directory which they are in; some archives contain a file twice
DrawMember(t, h) ==
  LET fresh == NewIn(t) \ DOMAIN t
  IN IF h = 0 THEN MemberAt(Root, "d", 0)
     ELSE IF fresh = {} \/ (Dup /\ Files(t) # {} /\ Rnd(0..9) = 0) THEN MemberAt(Rnd(Or(Files(t), {Root})), IF Files(t) = {} THEN "d" ELSE "f", h)
     ELSE MemberAt(Rnd(fresh), Rnd({"d", "d", "f", "f", "f", "o"} \ (IF Steps = Members /\ Rnd(0..5) = 0 THEN {} ELSE {"o"})), h)

NextF ==
  IF Len(hist) < Members
  THEN \E m \in {DrawMember(tree, Len(hist))} :
         /\ hist' = Append(hist, m)
         /\ tree' = IF Len(hist) = 0 THEN [p \in {Root} |-> Entry([k |-> "d", m |-> m.m, u |-> m.u, g |-> m.g, mt |-> 0, c |-> <<>>])]
                    ELSE Put(tree, m.p, Entry([k |-> m.k, m |-> m.m, u |-> m.u, g |-> m.g, mt |-> 0, c |-> m.c]))
         /\ used' = used \cup {m.p}
  ELSE Next
=============================================================================
