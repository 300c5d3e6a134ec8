-------------------------------- MODULE T_C02 --------------------------------
(* C02: each recorded call is a call of the reference file system.            *)
EXTENDS Follow

VARIABLES t, l, tree, bad

Tr == Traces[t]

PrevView(tr, n) == IF n = 0 THEN tr.v0 ELSE tr.steps[n].v

Init ==
  /\ t \in 1..Len(Traces)
  /\ l = 0
  /\ bad = IF Sane(Tr, Tr.v0) THEN {} ELSE {<<"tree", "malformed at the start">>}
  /\ tree = IF bad = {} THEN ToTree(Tr, Tr.v0) ELSE <<>>

Next ==
  /\ l < Len(Tr.steps)
  /\ bad = {}
  /\ l' = l + 1
  /\ t' = t
  /\ bad' = Judge(tree, Tr, PrevView(Tr, l), Tr.steps[l'])
  /\ tree' = IF bad' = {} THEN ToTree(Tr, Tr.steps[l'].v) ELSE tree

View == <<t, l, bad>>
Held == bad = {}
==============================================================================
