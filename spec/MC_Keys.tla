------------------------------- MODULE MC_Keys -------------------------------
(***************************************************************************)
(* All ways to use a few pairs. Checks that a private half is only usable  *)
(* with its password, and that what is opened is what has been made with   *)
(* the same pair. Careless models what must not be: passwords which are    *)
(* only compared in part.                                                  *)
(***************************************************************************)
EXTENDS Keys, TLC

CONSTANTS MaxPairs, MaxThings, Passwords, Msgs, Ks, Careless

VARIABLES s, last, learnt

vars == <<s, last, learnt>>

Calls == {Gen(f, w) : f \in Ks, w \in Passwords} \cup {Parse(i, w) : i \in 1..MaxPairs, w \in Passwords}
         \cup {Make(i, m, "string") : i \in 1..MaxPairs, m \in Msgs}
         \cup {Open(i, j, m) : i \in 1..MaxThings, j \in 1..MaxPairs, m \in Msgs}

\* A parser which ignores a part of the password
Loose(x, o) == IF Careless /\ o.op = "parse" THEN x.pairs[o.i].w % 2 = o.w % 2 ELSE Succeeds(x, o)

Init == s = Start /\ last = [ok |-> TRUE, o |-> Gen("", 0), y |-> 0] /\ learnt = {}

Next ==
  \E o \in Calls :
    /\ Possible(s, o)
    /\ (o.op = "gen" => Len(s.pairs) < MaxPairs)
    /\ (o.op = "make" => Len(s.things) < MaxThings)
    /\ last' = [ok |-> Loose(s, o), o |-> o, y |-> IF Loose(s, o) THEN Yields(s, o) ELSE 0]
    /\ s' = IF Loose(s, o) /\ o.op = "parse" THEN [s EXCEPT !.ids = @ \cup {o.i}] ELSE Do(s, o)
    /\ learnt' = IF o.op = "parse" /\ Loose(s, o) THEN learnt \cup {<<o.i, o.w>>} ELSE learnt

Spec == Init /\ [][Next]_vars

\* Only with the password
Guarded == \A x \in learnt : s.pairs[x[1]].w = x[2]
\* Only with the pair
Own == last.ok /\ last.o.op = "open" => s.things[last.o.i].by = last.o.j /\ last.y = s.things[last.o.i].m
\* With the password and the pair, always
Usable == \A i \in 1..Len(s.pairs) : Succeeds(s, Parse(i, s.pairs[i].w))
          /\ \A k \in 1..Len(s.things) : Succeeds(s, Open(k, s.things[k].by, s.things[k].m))
==============================================================================
