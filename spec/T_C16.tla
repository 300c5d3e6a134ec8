-------------------------------- MODULE T_C16 --------------------------------
(* C16: opening keeps the tape, appends nothing if there is a root, and shows *)
(* what a rebuild shows; later calls are those of the reference, and survive  *)
(* a rebuild.                                                                 *)
EXTENDS Follow, Tape

VARIABLES t, l, tree, bad

Tr == Traces[t]

\* The records which are completely on the tape
Complete(tr) == SubSeq(tr.ms, 1, Cardinality({k \in 1..Len(tr.ms) : tr.ms[k].eb <= tr.b}))
HasRoot(tr) == Root \in DOMAIN Rebuild(Complete(tr))

Differ(tr, a, b) == <<"only there", {tr.ents[i] : i \in ViewIds(tr, a) \ ViewIds(tr, b)}, "only rebuilt", {tr.ents[i] : i \in ViewIds(tr, b) \ ViewIds(tr, a)}>>

Opened(tr) ==
  Check(tr.keep = tr.old, <<"opening changed the tape at", tr.keep, "of", tr.old>>)
  \cup Check(HasRoot(tr) => tr.len = tr.old, <<"opening appended", tr.len - tr.old, "bytes">>)
  \cup Check(tr.e # "panic", <<"panic", tr.d>>)
  \cup Check(tr.e = "ok" \/ tr.b < tr.total, <<"opening an intact tape fails", tr.d>>)
  \cup (IF tr.e # "ok" THEN {}
        ELSE Check(Sane(tr, tr.v0), <<"malformed tree">>)
             \cup Check(tr.re = "ok", <<"rebuilding fails", tr.re>>)
             \cup Check(tr.v = tr.vr /\ tr.nt = tr.rn, <<"shows something else than a rebuild", tr.nt, tr.rn, Differ(tr, tr.v, tr.vr)>>))

PrevView(tr, n) == IF n = 0 THEN tr.v0 ELSE tr.steps[n].v

\* The content of the last record may be incomplete; nothing is known of calls which need it
Torn(x, o) == \E p \in {o.p, o.q} : IsFile(x, p) /\ x[p].c = <<-9>>

After(x, tr, n, s) ==
  LET rs == {r \in Do(x, tr.own, s.o) : s.e \in Classes(x, r, s.o) /\ s.ew \in r.ew}
  IN Check(s.keep = s.old, <<"changed the tape at", s.keep, "of", s.old>>)
     \cup Check(s.re = "ok", <<"rebuilding fails", s.re>>)
     \cup Check(s.v = s.vr /\ s.nt = s.rn, <<"does not survive a rebuild", s.o.op, Differ(tr, s.v, s.vr)>>)
     \cup Check(s.e # "panic", <<"panic", s.o.op, s.d>>)
     \cup (IF Torn(x, s.o) THEN Check(Sane(tr, s.v), <<"tree", "malformed">>)
           ELSE IF rs = {} THEN {<<"result", s.o.op, s.o.p, s.e, s.ew, s.d, "expected", {<<Classes(x, r, s.o), r.ew>> : r \in Do(x, tr.own, s.o)}>>}
           ELSE Check(s.ec = "ok", <<"close", s.o.op, s.ec>>)
                \cup (IF ~Sane(tr, s.v) THEN {<<"tree", "malformed">>}
                      ELSE Check(\E r \in rs : ViewPaths(tr, s.v) = DOMAIN r.t
                                               /\ \A id \in ViewIds(tr, s.v) : LET e == tr.ents[id] IN e.k = r.t[e.p].k /\ e.m = r.t[e.p].m /\ e.u = r.t[e.p].u /\ e.g = r.t[e.p].g
                                                                                                   /\ e.c = r.t[e.p].c,
                                 <<"tree", s.o.op, s.o.p>>)))

Init ==
  /\ t \in 1..Len(Traces)
  /\ l = 0
  /\ bad = Opened(Tr)
  /\ tree = IF bad = {} /\ Tr.e = "ok" /\ Sane(Tr, Tr.v0) THEN ToTree(Tr, Tr.v0) ELSE <<>>

Next ==
  /\ l < Len(Tr.steps)
  /\ bad = {}
  /\ tree # <<>>
  /\ l' = l + 1
  /\ t' = t
  /\ bad' = After(tree, Tr, l, Tr.steps[l'])
  /\ tree' = IF bad' = {} THEN ToTree(Tr, Tr.steps[l'].v) ELSE tree

View == <<t, l, bad>>
Held == bad = {}
==============================================================================
