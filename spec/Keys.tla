-------------------------------- MODULE Keys --------------------------------
(***************************************************************************)
(* Key pairs, and what is made with them, as terms. A pair is [f, w]: its  *)
(* kind and the password which protects its private half. An identity is   *)
(* what parsing a private half yields; a thing is [by, m, how]: what has   *)
(* been encrypted for, or signed by, a pair.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

EncKinds == {"age", "pgpe"}
SigKinds == {"minisign", "pgps"}
Kinds == EncKinds \cup SigKinds
Ways == {"string", "stream", "header"}

Start == [pairs |-> <<>>, ids |-> {}, things |-> <<>>]

\* A call is [op, i, f, w, m, how]; i is a pair (or for opening, j is a pair and i a thing).
Gen(f, w) == [op |-> "gen", i |-> 0, j |-> 0, f |-> f, w |-> w, m |-> 0, how |-> ""]
Parse(i, w) == [op |-> "parse", i |-> i, j |-> 0, f |-> "", w |-> w, m |-> 0, how |-> ""]
Make(i, m, how) == [op |-> "make", i |-> i, j |-> 0, f |-> "", w |-> 0, m |-> m, how |-> how]
Open(i, j, m) == [op |-> "open", i |-> i, j |-> j, f |-> "", w |-> 0, m |-> m, how |-> ""]

IsEnc(s, i) == s.pairs[i].f \in EncKinds

\* Whether a call makes sense
Possible(s, o) ==
  CASE o.op = "gen" -> TRUE
    [] o.op = "parse" -> o.i \in 1..Len(s.pairs)
    [] o.op = "make" -> o.i \in 1..Len(s.pairs) /\ (IsEnc(s, o.i) \/ o.i \in s.ids)
    [] o.op = "open" -> /\ o.i \in 1..Len(s.things) /\ o.j \in 1..Len(s.pairs)
                        /\ IsEnc(s, o.j) = IsEnc(s, s.things[o.i].by)
                        /\ (IsEnc(s, o.j) => o.j \in s.ids)

\* Whether it has to succeed (otherwise, it has to fail)
Succeeds(s, o) ==
  CASE o.op \in {"gen", "make"} -> TRUE
    [] o.op = "parse" -> s.pairs[o.i].w = o.w
    [] o.op = "open" -> /\ s.things[o.i].by = o.j
                        /\ (~IsEnc(s, o.j) => s.things[o.i].m = o.m)

\* The message which it yields
Yields(s, o) == IF o.op = "open" /\ Succeeds(s, o) THEN s.things[o.i].m ELSE 0

Do(s, o) ==
  IF ~Succeeds(s, o) THEN s
  ELSE CASE o.op = "gen" -> [s EXCEPT !.pairs = Append(@, [f |-> o.f, w |-> o.w])]
         [] o.op = "parse" -> [s EXCEPT !.ids = @ \cup {o.i}]
         [] o.op = "make" -> [s EXCEPT !.things = Append(@, [by |-> o.i, m |-> o.m, how |-> o.how])]
         [] o.op = "open" -> s
=============================================================================
