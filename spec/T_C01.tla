-------------------------------- MODULE T_C01 --------------------------------
(* C01: after each call, what the running instance shows is what an index     *)
(* which has been rebuilt from the tape, and the index when it is reopened,   *)
(* show. Views are interned, so equal views are equal in everything that can  *)
(* be observed.                                                               *)
EXTENDS Traces

VARIABLES t, l, bad

Tr == Traces[t]

Diff(tr, a, b) == {tr.ents[i] : i \in ViewIds(tr, a) \ ViewIds(tr, b)}

Judge(tr, s) ==
  Check(s.re = "ok", <<"rebuilding fails", s.re>>)
  \cup Check(s.oe = "ok", <<"reopening fails", s.oe>>)
  \cup Check(s.vr = s.v, <<"rebuilt", "only running", Diff(tr, s.v, s.vr), "only rebuilt", Diff(tr, s.vr, s.v)>>)
  \cup Check(s.vo \in {0, s.v}, <<"reopened", "only running", IF s.vo = 0 THEN {} ELSE Diff(tr, s.v, s.vo), "only reopened", IF s.vo = 0 THEN {} ELSE Diff(tr, s.vo, s.v)>>)
  \cup Check(s.rn = s.nt, <<"walk of the rebuilt", s.nt, s.rn>>)
  \cup Check(s.vo = 0 \/ s.on = s.nt, <<"walk of the reopened", s.nt, s.on>>)

Init == t \in 1..Len(Traces) /\ l = 0 /\ bad = Judge(Tr, Tr.s0)

Next ==
  /\ l < Len(Tr.steps)
  /\ bad = {}
  /\ l' = l + 1
  /\ t' = t
  /\ bad' = Judge(Tr, Tr.steps[l'])

View == <<t, l, bad>>
Held == bad = {}
==============================================================================
