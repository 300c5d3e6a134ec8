-------------------------------- MODULE T_C04 --------------------------------
(* C04: the index's positions are those which the fold of the recorded tape   *)
(* has, and designate the entries' contents.                                  *)
EXTENDS Tape, Traces

VARIABLES t, l, idx, final, bad

Tr == Traces[t]

Row(s, p) == s.rows[CHOOSE i \in 1..Len(s.rows) : s.rows[i].p = p]

RowOK(tr, s, r, i) ==
  LET e == i[r.p]
  IN Check(r.a = Pos(i, r.p), <<"position of", r.p, "is", r.a, "but its content is at", Pos(i, r.p)>>)
     \cup Check(r.b >= 0 /\ r.b < tr.rs, <<"block of", r.p, r.b, "record size", tr.rs>>)
     \cup Check(r.lb >= 0 /\ r.lb < tr.rs, <<"last known block of", r.p, r.lb, "record size", tr.rs>>)
     \cup Check(r.la >= r.a, <<"last known position of", r.p, r.la, "before its content", r.a>>)
     \cup Check(r.k # "f" \/ (r.fe = "ok" /\ r.c = e.y.c /\ r.c = EntAt(tr, s.v, r.p).c),
                <<"fetching", r.p, r.fe, r.c, "tape", e.y.c, "file", EntAt(tr, s.v, r.p).c>>)

Judge(tr, s, i, f) ==
  LET ps == {s.rows[k].p : k \in 1..Len(s.rows)}
  IN IF \E k \in 1..Len(s.ms) : s.ms[k].err # "ok" THEN {<<"unreadable record", s.ms>>}
     ELSE IF ~Sane(tr, s.v) \/ Cardinality(ps) # Len(s.rows) \/ ps # ViewPaths(tr, s.v) \/ ps # DOMAIN i
     THEN {<<"entries", ps, "visible", ViewPaths(tr, s.v), "tape", DOMAIN i>>}
     ELSE UNION {RowOK(tr, s, s.rows[k], i) : k \in 1..Len(s.rows)}
          \cup Check(s.last = f, <<"last written", s.last, "final record", f>>)
          \cup Check(s.lastb >= 0 /\ s.lastb < tr.rs, <<"block of the last written", s.lastb>>)

FinalOf(s, f) == IF s.ms = <<>> THEN f ELSE s.ms[Len(s.ms)].a

Init ==
  /\ t \in 1..Len(Traces)
  /\ l = 0
  /\ idx = Rebuild(Tr.s0.ms)
  /\ final = FinalOf(Tr.s0, 0)
  /\ bad = Judge(Tr, Tr.s0, idx, final)

Next ==
  /\ l < Len(Tr.steps)
  /\ bad = {}
  /\ l' = l + 1
  /\ t' = t
  /\ idx' = FoldAll(idx, Tr.steps[l'].ms)
  /\ final' = FinalOf(Tr.steps[l'], final)
  /\ bad' = Judge(Tr, Tr.steps[l'], idx', final')

View == <<t, l, bad>>
Held == bad = {}
==============================================================================
