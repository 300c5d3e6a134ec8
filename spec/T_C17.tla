-------------------------------- MODULE T_C17 --------------------------------
(* C17: archives of other programs are file systems: what they show is the    *)
(* tree of the archive's members, whatever spelling is used; calls go on from *)
(* there, and what an index which is built from the tape shows is the same.   *)
EXTENDS Foreign, Follow

VARIABLES t, l, tree, bad

Tr == Traces[t]

PrevView(tr, n) == IF n = 0 THEN tr.v0 ELSE tr.steps[n].v

AllSame(s) == \A i \in 1..Len(s) : s[i] = s[1]

Spellings(tr, x) ==
  {<<"spellings of", s.p, s.st>> : s \in {tr.sp[i] : i \in {j \in 1..Len(tr.sp) : ~AllSame(tr.sp[j].st)}}}

\* What is seen through caches: kinds, contents and names
CacheOK(x, s) ==
  /\ s.e = "ok"
  /\ s.k = x[s.p].k
  /\ s.k = "f" => s.c = x[s.p].c
  /\ s.k = "d" => /\ Len(s.ch) = Cardinality(Children(x, s.p))
                  /\ SeqSet(s.ch) = {Base(q) : q \in Children(x, s.p)}
Caches(tr, x) == {<<"cache", tr.ca[i]>> : i \in {j \in 1..Len(tr.ca) : ~CacheOK(x, tr.ca[j])}}

Opened(tr) ==
  IF tr.e # "ok" THEN {<<"can not be opened", tr.e, tr.d>>}
  ELSE IF tr.n0 # <<>> THEN {<<"walk", tr.n0>>}
  ELSE IF ~NoDuplicates(tr, tr.v0)
       THEN {<<"listed twice", {p \in ViewPaths(tr, tr.v0) : \E i, j \in 1..Len(tr.views[tr.v0]) : i # j /\ tr.ents[tr.views[tr.v0][i]].p = p /\ tr.ents[tr.views[tr.v0][j]].p = p},
              "missing", {tr.members[i].p : i \in 1..Len(tr.members)} \ ViewPaths(tr, tr.v0)>>}
  ELSE LET x == TreeOf(tr.members)
       IN Check(Matches(x, tr, tr.v0, {}), <<"tree differs from the archive at", Differing(x, tr, tr.v0, {})>>)
          \cup Check(tr.kept, <<"members of the archive have been overwritten">>)
          \cup Spellings(tr, x) \cup Caches(tr, x)

\* Trees which other indexes show
Others(tr, s) ==
  Check(s.re = "ok" /\ s.rn = <<>> /\ s.rv = s.v, <<"an index which is built from the tape differs", s.o.op, s.re, s.rn>>)
  \cup Check(s.me = "ok" /\ s.mn = <<>> /\ s.mv = s.v, <<"a file system which is opened without index differs", s.o.op, s.me, s.mn>>)
  \cup Check(s.oe = "ok" /\ s.on = <<>> /\ s.ov = s.v, <<"a file system which is opened again differs", s.o.op, s.oe, s.on>>)

\* Creating the root directory fails; it may have no parent in the archive
Follows(x, tr, n, s) ==
  IF s.o.op = "mkdir" /\ s.o.p = Root THEN Check(s.e \in {"exist", "notexist"} /\ s.v = PrevView(tr, n) /\ s.nt = <<>>, <<"mkdir of the root", s.e>>)
  ELSE Judge(x, tr, PrevView(tr, n), s)

Init ==
  /\ t \in 1..Len(Traces)
  /\ l = 0
  /\ bad = Opened(Tr)
  /\ tree = IF bad = {} THEN TreeOf(Tr.members) ELSE <<>>

Next ==
  /\ l < Len(Tr.steps)
  /\ bad = {}
  /\ l' = l + 1
  /\ t' = t
  /\ bad' = LET j == Follows(tree, Tr, l, Tr.steps[l']) IN IF j # {} THEN j ELSE Others(Tr, Tr.steps[l'])
  /\ tree' = IF bad' = {} THEN ToTree(Tr, Tr.steps[l'].v) ELSE tree

View == <<t, l, bad>>
Held == bad = {}
==============================================================================
