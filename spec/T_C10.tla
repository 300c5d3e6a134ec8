-------------------------------- MODULE T_C10 --------------------------------
(* C10: each call which has been recorded returned, and what happened at the  *)
(* drive until then left it free, whether or not one of its steps failed.     *)
EXTENDS Drive, Traces

VARIABLES t, l, bad

Tr == Traces[t]

\* What a call did to a drive which was free; once it isn't, that is what is reported
Judge(run, i) ==
  LET s == run.segs[i]
      after == After(Free, s.ev)
  IN Check(s.e # "panic", <<"panicked", s.op, s.d>>)
     \cup Check(after = Free, <<"left the drive", after, "call", s.op, "which returned", s.e, s.d, "did", s.ev>>)
     \* The calls after the one with the fault are such that they succeed
     \cup Check(i < run.probe \/ s.e = "ok", <<"call after a fault failed", s.op, s.e, s.d>>)

Init == t \in 1..Len(Traces) /\ l = 0 /\ bad = {}

Next ==
  /\ l < Len(Tr.runs)
  /\ bad = {}
  /\ l' = l + 1
  /\ t' = t
  /\ LET run == Tr.runs[l']
         b == UNION {Judge(run, i) : i \in 1..Len(run.segs)}
     IN bad' = IF b = {} THEN {} ELSE {<<run.call.op, run.call, "fault", run.mode, "at", run.point, run.k>>} \cup b

Held == bad = {}
View == <<t, l, bad>>
==============================================================================
