-------------------------------- MODULE T_C07 --------------------------------
(* C07: replaying the tape over the index of any of its prefixes, or over an  *)
(* index which has been current after any call, converges to what rebuilding  *)
(* from scratch yields, which is the fold of the tape; doing so again changes *)
(* nothing.                                                                   *)
EXTENDS Tape, Traces

VARIABLES t, l, bad

Tr == Traces[t]

Diff(tr, a, b) == {tr.ents[i] : i \in SeqSet(a) \ SeqSet(b)}

Shown(tr) ==
  LET i == Rebuild(tr.ms)
      ok(r) == r.p \in DOMAIN i /\ r.k = i[r.p].x.k /\ r.m = i[r.p].x.m /\ r.u = i[r.p].x.u /\ r.g = i[r.p].x.g /\ r.mt = i[r.p].x.mt /\ r.n = i[r.p].y.n
      rows == {tr.ents[tr.rows0[k]] : k \in 1..Len(tr.rows0)}
  IN Check({r.p : r \in rows} = DOMAIN i /\ \A r \in rows : ok(r), <<"a rebuild is not the fold of the tape", {r \in rows : ~ok(r)}, DOMAIN i>>)

Judge(tr, s) ==
  Check(s.e1 = "ok", <<"replaying over", s.kind, s.at, "fails", s.d1>>)
  \cup Check(s.e2 = "ok", <<"replaying twice over", s.kind, s.at, "fails", s.d2>>)
  \cup Check(s.r1 = tr.rows0, <<"replaying over", s.kind, s.at, "only replayed", Diff(tr, s.r1, tr.rows0), "only from scratch", Diff(tr, tr.rows0, s.r1)>>)
  \cup Check(s.v1 = tr.v0 /\ s.n1 = tr.nt0, <<"replaying over", s.kind, s.at, "shows another tree">>)
  \cup Check(s.r2 = s.r1 /\ s.v2 = s.v1 /\ s.n2 = s.n1, <<"replaying twice over", s.kind, s.at, "changes", Diff(tr, s.r2, s.r1), Diff(tr, s.r1, s.r2)>>)
  \cup Check(s.l1 = s.l2, <<"replaying twice over", s.kind, s.at, "moves the last position">>)

Init == t \in 1..Len(Traces) /\ l = 0 /\ bad = Shown(Tr)

Next ==
  /\ l < Len(Tr.steps)
  /\ bad = {}
  /\ l' = l + 1
  /\ t' = t
  /\ bad' = Judge(Tr, Tr.steps[l'])

View == <<t, l, bad>>
Held == bad = {}
==============================================================================
