-------------------------------- MODULE T_C18 --------------------------------
(* C18: each call on generated keys succeeds exactly if the specification's   *)
(* does, and yields the same.                                                 *)
EXTENDS Keys, Traces

VARIABLES t, l, s, bad

Tr == Traces[t]

After(x, st) ==
  IF ~Possible(x, st.o) THEN {<<"impossible", st.o>>}
  ELSE IF Succeeds(x, st.o) /\ st.e # "ok" THEN {<<"fails", st.o, st.e, st.d>>}
  ELSE IF ~Succeeds(x, st.o) /\ st.e = "ok" THEN {<<"succeeds", st.o, "password", st.w>>}
  ELSE Check(st.m = Yields(x, st.o), <<"yields something else", st.o, st.m, Yields(x, st.o)>>)
       \cup Check(st.e # "panic", <<"panic", st.d>>)

Init == t \in 1..Len(Traces) /\ l = 0 /\ s = Start /\ bad = {}

Next ==
  /\ l < Len(Tr.steps)
  /\ bad = {}
  /\ l' = l + 1
  /\ t' = t
  /\ bad' = After(s, Tr.steps[l'])
  /\ s' = IF bad' = {} THEN Do(s, Tr.steps[l'].o) ELSE s

View == <<t, l, bad>>
Held == bad = {}
==============================================================================
