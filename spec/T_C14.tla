-------------------------------- MODULE T_C14 --------------------------------
(* C14: each recorded call on an open file is a call on a byte array.         *)
(* hs are the sets of handles which are possible after the calls so far.      *)
EXTENDS Handle, Traces

VARIABLES t, l, hs, ds, bad

Tr == Traces[t]

\* What a fresh open reads and Stat reports once a file has been closed
Final(s, c) == IF s.e # "ok" THEN {} ELSE
  Check(s.fc = c, <<"content after close", s.fc, "expected", c>>) \cup Check(s.fn = Len(c), <<"size after close", s.fn, "expected", Len(c)>>)

Fits(r, s) ==
  /\ s.e \in r.e
  /\ IF s.e = "ok" \/ (s.e = "eof" /\ s.o.op \in {"read", "readat"}) THEN s.n = r.n /\ s.b = r.b ELSE s.n = 0 /\ s.b = <<>>

Init == t \in 1..Len(Traces) /\ l = 0 /\ hs = <<{Closed}, {Closed}>> /\ ds = <<<<>>, <<>>>> /\ bad = {}

Next ==
  /\ l < Len(Tr.steps)
  /\ bad = {}
  /\ l' = l + 1
  /\ t' = t
  /\ LET s == Tr.steps[l']
         k == s.o.h
         rs == UNION {Step(h, ds[k], s.o, Tr.wpr) : h \in hs[k]}
         fit == {r \in rs : Fits(r, s)}
         some == CHOOSE h \in hs[k] : TRUE \* All of them have the same content
         now == IF some.wr THEN some.c ELSE ds[k]
     IN IF fit = {}
        THEN /\ bad' = {<<s.o.op, s.o, "returned", s.e, s.n, s.b, "handle", hs[k], "expected", {<<r.e, r.n, r.b>> : r \in rs}>>}
             /\ UNCHANGED <<hs, ds>>
        ELSE /\ hs' = [hs EXCEPT ![k] = {r.h : r \in fit}]
             /\ ds' = IF s.o.op = "close" THEN [ds EXCEPT ![k] = now] ELSE ds
             /\ bad' = IF s.o.op = "close" THEN Final(s, now) ELSE {}

Held == bad = {}
View == <<t, l, bad>>
==============================================================================
