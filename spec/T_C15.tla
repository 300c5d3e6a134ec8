-------------------------------- MODULE T_C15 --------------------------------
(* C15: a file system which has been opened read-only changes neither the     *)
(* tape nor the index, refuses to change anything, and shows what a writable  *)
(* one shows.                                                                 *)
EXTENDS Follow, ReadOnly, Tape

VARIABLES t, l, tree, bad

Tr == Traces[t]

Complete(tr) == SubSeq(tr.ms, 1, Cardinality({k \in 1..Len(tr.ms) : tr.ms[k].eb <= tr.b}))
HasRoot(tr) == Root \in DOMAIN Rebuild(Complete(tr))

Differ(tr, a, b) == <<"only there", {tr.ents[i] : i \in ViewIds(tr, a) \ ViewIds(tr, b)}, "only writable", {tr.ents[i] : i \in ViewIds(tr, b) \ ViewIds(tr, a)}>>

Opened(tr) ==
  Check(tr.same, <<"opening changed the tape">>)
  \cup Check(tr.idx = "copy" => tr.samedb, <<"opening changed the index">>)
  \cup Check(tr.e # "panic", <<"panic", tr.d>>)
  \cup (IF ~HasRoot(tr) THEN Check(tr.e # "ok", <<"opening without a root">>)
        ELSE Check(tr.e = tr.te, <<"opening", tr.e, tr.d, "writable", tr.te>>)
             \cup (IF tr.e # "ok" \/ tr.te # "ok" THEN {} ELSE Check(tr.v0 = tr.tv /\ tr.nt = tr.tn, <<"shows something else", tr.nt, tr.tn, Differ(tr, tr.v0, tr.tv)>>)))

\* The content has been cut off
Torn(x, o) == o.op = "read" /\ IsFile(x, o.p) /\ x[o.p].c = <<-9>>

JudgeRO(tr, x, s) ==
  Check(s.same, <<"changed the tape", s.o>>)
  \cup Check(s.samedb, <<"changed the index", s.o>>)
  \cup Check(s.e # "panic", <<"panic", s.o, s.d>>)
  \cup (IF tr.e # "ok" THEN Check(s.o.op \in Reading \cup {"open"} \/ s.e # "ok", <<"not refused", s.o>>)
        ELSE Check(s.v = tr.v0 /\ s.nt = tr.nt, <<"shows something else after", s.o>>)
             \cup Check((Torn(x, s.o) /\ s.e # "ok") \/ s.e \in Results(x, tr.own, s.o) \/ (s.o.op = "list" /\ s.e \in Classes(x, CHOOSE r \in Do(x, tr.own, s.o) : TRUE, s.o)),
                        <<"result", s.o, s.e, s.d, "expected", Results(x, tr.own, s.o)>>)
             \cup Check(s.e # "ok" \/ s.o.op # "open" \/ s.ew \in Writes(x, s.o), <<"write", s.o, s.ew>>)
             \cup Check(s.e # "ok" \/ s.o.op # "open" \/ s.ec \in {"ok", "perm"}, <<"close", s.o, s.ec, s.d>>)
             \cup Check(ResultOK(x, s, tr.g), <<"value", s.o, s.x>>))

Init ==
  /\ t \in 1..Len(Traces)
  /\ l = 0
  /\ bad = Opened(Tr)
  /\ tree = IF Tr.e = "ok" /\ Sane(Tr, Tr.v0) THEN ToTree(Tr, Tr.v0) ELSE <<>>

Next ==
  /\ l < Len(Tr.steps)
  /\ bad = {}
  /\ l' = l + 1
  /\ t' = t
  /\ bad' = JudgeRO(Tr, tree, Tr.steps[l'])
  /\ tree' = tree

View == <<t, l, bad>>
Held == bad = {}
==============================================================================
