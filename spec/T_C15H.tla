------------------------------- MODULE T_C15H -------------------------------
(* C15: files which have been opened through a read-only file system are      *)
(* byte arrays with a cursor which can not be written to.                     *)
EXTENDS Handle, Traces

VARIABLES t, l, hs, bad

Tr == Traces[t]

Mutating == {"write", "writestring", "writeat", "truncate"}

\* Whether files which have been opened for writing only can be read is left open
Handles(o, d) == {[open |-> TRUE, rd |-> r, wr |-> FALSE, app |-> o.app, c |-> d, cur |-> 0] : r \in (IF o.acc = "w" THEN BOOLEAN ELSE {TRUE})}

StepRO(h, d, o) ==
  IF o.op = "open" THEN {Out({"ok"}, 0, <<>>, x) : x \in Handles(o, d)}
  ELSE IF o.op \in Mutating /\ (o.op = "truncate" \/ o.c # <<>>) THEN {Out({"perm"}, 0, <<>>, h)}
  ELSE IF o.op \in {"sync", "close"} THEN {[r EXCEPT !.e = @ \cup {"perm"}] : r \in Step(h, d, o, FALSE)}
  ELSE Step(h, d, o, FALSE)

Fits(r, s) ==
  /\ s.e \in r.e
  /\ IF s.e = "ok" \/ (s.e = "eof" /\ s.o.op \in {"read", "readat"}) THEN s.n = r.n /\ s.b = r.b ELSE s.n = 0 /\ s.b = <<>>

Init == t \in 1..Len(Traces) /\ l = 0 /\ hs = <<{Closed}, {Closed}>> /\ bad = {}

Next ==
  /\ l < Len(Tr.steps)
  /\ bad = {}
  /\ l' = l + 1
  /\ t' = t
  /\ LET s == Tr.steps[l']
         k == s.o.h
         d == Tr.init[k]
         fit == {r \in UNION {StepRO(h, d, s.o) : h \in hs[k]} : Fits(r, s)}
     IN /\ hs' = [hs EXCEPT ![k] = {r.h : r \in fit}]
        /\ bad' = Check(fit # {}, <<s.o, "returned", s.e, s.n, s.b, "handle", hs[k]>>)
                  \cup Check(s.same, <<s.o, "changed the tape or the index">>)
                  \cup Check(s.o.op # "close" \/ s.e # "ok" \/ (s.fc = d /\ s.fn = Len(d)), <<"content after close", s.fc, s.fn>>)

Held == bad = {}
View == <<t, l, bad>>
==============================================================================
