-------------------------------- MODULE T_C12 --------------------------------
(* C12: removing or renaming concerns exactly the subtree - in the running    *)
(* file system, and in the one which the tape describes.                      *)
EXTENDS RefFS, Traces

VARIABLES t, l, bad

Tr == Traces[t]

Removing == {"remove", "removeall", "opdelete"}
Moving == {"rename", "opmove"}

At(tr, v, p) == EntAt(tr, v, p)
Same(a, b) == a.k = b.k /\ a.m = b.m /\ a.u = b.u /\ a.g = b.g /\ a.mt = b.mt /\ a.c = b.c /\ a.n = b.n

\* Everything outside of the subtrees at the given paths is exactly as it was
Outside(tr, v, w, ps) ==
  LET out(x) == {id \in ViewIds(tr, x) : \A p \in ps : ~Within(p, tr.ents[id].p)}
  IN Check(out(v) = out(w), <<"outside of", ps, "gone", {tr.ents[i].p : i \in out(v) \ out(w)}, "new or altered", {tr.ents[i].p : i \in out(w) \ out(v)}>>)

Beneath(tr, v, p) == {q \in ViewPaths(tr, v) : Within(p, q)}

Removed(tr, v, w, p) == Outside(tr, v, w, {p}) \cup Check(Beneath(tr, w, p) = {}, <<"left in the subtree", Beneath(tr, w, p)>>)

Renamed(tr, v, w, p, q) ==
  LET moved == {q \o SubSeq(r, Len(p) + 1, Len(r)) : r \in Beneath(tr, v, p)}
      src(r) == p \o SubSeq(r, Len(q) + 1, Len(r))
  IN Outside(tr, v, w, {p, q})
     \cup Check(Beneath(tr, w, p) = {}, <<"left at the source", Beneath(tr, w, p)>>)
     \cup Check(Beneath(tr, w, q) = moved, <<"at the destination", Beneath(tr, w, q), "expected", moved>>)
     \cup (IF Beneath(tr, w, q) # moved THEN {}
           ELSE Check(\A r \in moved : Same(At(tr, v, src(r)), At(tr, w, r)),
                      <<"altered", {r \in moved : ~Same(At(tr, v, src(r)), At(tr, w, r))}>>))

\* v is the tree before, w the tree after the call
Effect(tr, s, v, w) ==
  LET o == s.o
  IN IF ~Sane(tr, v) \/ ~Sane(tr, w) THEN {<<"malformed tree">>}
     ELSE CASE o.op \in Removing ->
                 IF s.e = "ok" THEN (IF Beneath(tr, v, o.p) = {} THEN Check(v = w, <<"nothing to remove">>) ELSE Removed(tr, v, w, o.p)) ELSE Check(v = w, <<"failed", o.op, "changed something">>)
            [] o.op \in Moving ->
                 IF s.e # "ok" THEN Check(v = w, <<"failed", o.op, "changed something">>)
                 ELSE IF o.p = o.q THEN Check(v = w, <<"renaming to itself changed something">>)
                 ELSE Renamed(tr, v, w, o.p, o.q)
            [] OTHER -> {}

Judge(tr, pr, s) ==
  Effect(tr, s, pr.v, s.v) \cup Effect(tr, s, pr.vr, s.vr)
  \cup Check(s.o.op \notin Moving \/ ~Under(s.o.p, s.o.q) \/ s.e # "ok", <<"renamed into its own subtree", s.o.p, s.o.q>>)
  \cup Check(s.o.op # "removeall" \/ s.e = "ok", <<"removeall fails", s.e>>)
  \cup Check(s.o.op # "rename" \/ s.e = "ok" \/ ~(s.o.p \in ViewPaths(tr, pr.v) /\ Len(s.o.p) > 0 /\ s.o.q \notin ViewPaths(tr, pr.v) /\ ~Within(s.o.p, s.o.q)
             /\ Parent(s.o.q) \in ViewPaths(tr, pr.v) /\ EntAt(tr, pr.v, Parent(s.o.q)).k = "d"), <<"a valid rename fails", s.e>>)

Init == t \in 1..Len(Traces) /\ l = 0 /\ bad = {}

Next ==
  /\ l < Len(Tr.steps)
  /\ bad = {}
  /\ l' = l + 1
  /\ t' = t
  /\ bad' = Judge(Tr, IF l = 0 THEN Tr.s0 ELSE Tr.steps[l], Tr.steps[l'])

View == <<t, l, bad>>
Held == bad = {}
==============================================================================
