------------------------------ MODULE MC_Crypto ------------------------------
(***************************************************************************)
(* Somebody with a key of their own, who can read everything, changes a    *)
(* tape which has been signed. Checks that only headers of the owner are   *)
(* accepted, and only their contents restored. Exports each change.        *)
(* Headerlike: the owner signs contents which somebody else chooses, and   *)
(* signatures of contents and headers are not distinguished.               *)
(***************************************************************************)
EXTENDS Crypto, TLC, Json

CONSTANTS Files, Others, MaxMods, BadSigs, Flaws, Headerlike, Export

VARIABLES tape, mods

N == Files + Others

Whats == {"name", "action", "mode", "size", "owner"}

\* How a change is described: names of terms
EmbSpecs == [k : {"legit"}, i : 1..N, what : {""}] \cup [k : {"forged"}, i : 1..N, what : Whats \cup {"csnone", "csother", "csmal", "csbad"}] \cup {[k |-> "none", i |-> 0, what |-> ""]}
SigSpecs == [k : {"hdr"}, i : 1..N] \cup [k : {"content"}, i : 1..Files] \cup {[k |-> "mal", i |-> 0], [k |-> "none", i |-> 0]} \cup [k : {"bad"}, i : BadSigs]
DataSpecs == [k : {"content", "cut"}, i : 1..Files] \cup {[k |-> "forged", i |-> 0], [k |-> "empty", i |-> 0]}
Places == [k : {"replace", "insert"}, i : 1..N] \cup {[k |-> "append", i |-> 0]}

Init == tape = Tape0(Files, N) /\ mods = 0

Change(c) ==
  /\ mods < MaxMods
  /\ tape' = PutRecord(tape, c.at, Made(c, Files, Headerlike))
  /\ mods' = mods + 1
  /\ Export => PrintT(<<"CHANGE", ToJson(c)>>)

\* Without an embedded header or a matching one, what the content is makes no difference
Sensible(c) == c.emb.k = "legit" \/ c.data.k \in {"forged"} \/ (c.data.k = "content" /\ c.data.i = c.emb.i)

Next == \E e \in EmbSpecs, s \in SigSpecs, d \in DataSpecs, p \in Places :
          LET c == [emb |-> e, sig |-> s, data |-> d, at |-> p] IN Sensible(c) /\ Change(c)

Spec == Init /\ [][Next]_<<tape, mods>>

Accepted == Indexed(tape, 1, Flaws)
Signed == {Legit(i, Files) : i \in 1..N}
Sound == \A i \in 1..Len(Accepted) : Accepted[i] \in Signed
Faithful == \A i \in 1..Len(tape) : LET r == Restored(tape[i], Flaws) IN r = Nothing \/ (\E k \in 1..Files : r = Content(k) /\ tape[i].emb = Legit(k, Files))
Complete == mods = 0 => Len(Accepted) = N /\ \A i \in 1..Files : Restored(tape[i], Flaws) = Content(i)
==============================================================================
